From 866623e218abe4f502c6beb3512edafc78c9e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 01/33] fix: saving and exporting to a path replaces the file
 atomically

---
 src/api.rs                 |  8 ++--
 src/bin/pptcli.rs          |  2 +-
 src/cli/commands.rs        |  6 +--
 src/export/pdf_export.rs   |  2 +-
 src/export/slide_render.rs |  2 +-
 src/opc/io.rs              | 80 ++++++++++++++++++++++++++++++++++++++
 src/opc/mod.rs             |  1 +
 src/opc/package.rs         |  7 ++--
 src/prelude.rs             |  2 +-
 9 files changed, 96 insertions(+), 14 deletions(-)
 create mode 100644 src/opc/io.rs

diff --git a/src/api.rs b/src/api.rs
index aab3c39..b2cabfd 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -108,7 +108,7 @@ impl Presentation {
     /// Save the presentation to a file
     pub fn save<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         let data = self.build()?;
-        std::fs::write(path, data)?;
+        crate::opc::io::write_file(path, data)?;
         Ok(())
     }
 
@@ -121,7 +121,7 @@ impl Presentation {
     /// Export the presentation to HTML
     pub fn save_as_html<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         let html = export_to_html(self)?;
-        std::fs::write(path, html)?;
+        crate::opc::io::write_file(path, html)?;
         Ok(())
     }
 
@@ -313,7 +313,7 @@ impl Presentation {
     pub fn save_as_markdown<P: AsRef<Path>>(&self, path: P) -> Result<()> {
         use crate::export::md::export_to_markdown;
         let md = export_to_markdown(self)?;
-        std::fs::write(path, md)?;
+        crate::opc::io::write_file(path, md)?;
         Ok(())
     }
 
@@ -325,7 +325,7 @@ impl Presentation {
     ) -> Result<()> {
         use crate::export::md::export_to_markdown_with_options;
         let md = export_to_markdown_with_options(self, options)?;
-        std::fs::write(path, md)?;
+        crate::opc::io::write_file(path, md)?;
         Ok(())
     }
 
diff --git a/src/bin/pptcli.rs b/src/bin/pptcli.rs
index 3866125..b3b7164 100644
--- a/src/bin/pptcli.rs
+++ b/src/bin/pptcli.rs
@@ -372,7 +372,7 @@ fn execute_web2ppt(
                 println!("💾 Saving to {}...", output);
             }
 
-            match std::fs::write(&output, &pptx_data) {
+            match ppt_rs::opc::io::write_file(&output, &pptx_data) {
                 Ok(_) => {
                     println!("✓ Created: {} ({} bytes)", output, pptx_data.len());
                 }
diff --git a/src/cli/commands.rs b/src/cli/commands.rs
index 7015c61..cd86486 100644
--- a/src/cli/commands.rs
+++ b/src/cli/commands.rs
@@ -40,7 +40,7 @@ impl CreateCommand {
         };
 
         // Write to file
-        fs::write(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
+        crate::opc::io::write_file(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
 
         Ok(())
     }
@@ -74,7 +74,7 @@ impl FromMarkdownCommand {
             .map_err(|e| format!("Failed to generate PPTX: {e}"))?;
 
         // Write to file
-        fs::write(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
+        crate::opc::io::write_file(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
 
         Ok(())
     }
@@ -125,7 +125,7 @@ impl FromHtmlCommand {
             .map_err(|e| format!("Failed to generate PPTX: {e}"))?;
 
         // Write to file
-        fs::write(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
+        crate::opc::io::write_file(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
 
         Ok(())
     }
diff --git a/src/export/pdf_export.rs b/src/export/pdf_export.rs
index 7ef48dd..7a8af58 100644
--- a/src/export/pdf_export.rs
+++ b/src/export/pdf_export.rs
@@ -157,7 +157,7 @@ pub fn export_to_pdf<P: AsRef<Path>>(
     options: &PdfExportOptions,
 ) -> Result<Vec<u8>> {
     let bytes = export_to_pdf_bytes(presentation, options)?;
-    std::fs::write(output_path.as_ref(), &bytes)?;
+    crate::opc::io::write_file(output_path.as_ref(), &bytes)?;
     Ok(bytes)
 }
 
diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 9e4bb57..2889c17 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -416,7 +416,7 @@ pub fn render_to_pdf<P: AsRef<std::path::Path>>(
     output_path: P,
 ) -> Result<()> {
     let bytes = render_to_pdf_bytes(presentation)?;
-    std::fs::write(output_path.as_ref(), &bytes)?;
+    crate::opc::io::write_file(output_path.as_ref(), &bytes)?;
     Ok(())
 }
 
diff --git a/src/opc/io.rs b/src/opc/io.rs
new file mode 100644
index 0000000..3c608c8
--- /dev/null
+++ b/src/opc/io.rs
@@ -0,0 +1,80 @@
+//! I/O helpers shared by everything that writes packages and exports
+
+use std::fs::{self, File, OpenOptions};
+use std::io::{self, Write};
+use std::path::{Path, PathBuf};
+
+/// Write a whole file so that `path` holds either its previous contents or
+/// all of `data`, whatever fails on the way.
+///
+/// The data goes to a temporary file in the same directory, which is synced
+/// and then renamed over the target. The temporary file is removed if any
+/// step fails. Targets that are not regular files are written in place.
+pub fn write_file<P: AsRef<Path>>(path: P, data: impl AsRef<[u8]>) -> io::Result<()> {
+    let data = data.as_ref();
+    let target = resolve_symlinks(path.as_ref())?;
+
+    let permissions = match fs::metadata(&target) {
+        Ok(meta) if meta.is_file() => {
+            // A file that may not be written must not be replaced either
+            OpenOptions::new().write(true).open(&target)?;
+            Some(meta.permissions())
+        }
+        Ok(_) => return fs::write(&target, data),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+        Err(e) => return Err(e),
+    };
+    if target.file_name().is_none() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "path has no file name",
+        ));
+    }
+
+    let dir = match target.parent() {
+        Some(parent) if !parent.as_os_str().is_empty() => parent,
+        _ => Path::new("."),
+    };
+    let temp = dir.join(format!(".{}.tmp", uuid::Uuid::new_v4()));
+    let file = OpenOptions::new().write(true).create_new(true).open(&temp)?;
+    let written = fill(file, data, permissions).and_then(|()| fs::rename(&temp, &target));
+    if let Err(e) = written {
+        let _ = fs::remove_file(&temp);
+        return Err(e);
+    }
+
+    // Make the rename itself durable where the platform supports it
+    #[cfg(unix)]
+    if let Ok(handle) = File::open(dir) {
+        let _ = handle.sync_all();
+    }
+    Ok(())
+}
+
+fn fill(mut file: File, data: &[u8], permissions: Option<fs::Permissions>) -> io::Result<()> {
+    file.write_all(data)?;
+    if let Some(permissions) = permissions {
+        file.set_permissions(permissions)?;
+    }
+    file.sync_all()
+}
+
+/// Follow symbolic links so that a link stays a link and its target is replaced.
+fn resolve_symlinks(path: &Path) -> io::Result<PathBuf> {
+    let mut target = path.to_path_buf();
+    for _ in 0..40 {
+        match fs::symlink_metadata(&target) {
+            Ok(meta) if meta.file_type().is_symlink() => {
+                let link = fs::read_link(&target)?;
+                target = match target.parent() {
+                    Some(parent) => parent.join(link),
+                    None => link,
+                };
+            }
+            Ok(_) => return Ok(target),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => return Ok(target),
+            Err(e) => return Err(e),
+        }
+    }
+    Err(io::Error::other("too many levels of symbolic links"))
+}
diff --git a/src/opc/mod.rs b/src/opc/mod.rs
index c5d269d..00b798c 100644
--- a/src/opc/mod.rs
+++ b/src/opc/mod.rs
@@ -2,6 +2,7 @@
 
 pub mod package;
 pub mod compress;
+pub mod io;
 
 pub use package::Package;
 pub use compress::{
diff --git a/src/opc/package.rs b/src/opc/package.rs
index 853766f..635b947 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -47,9 +47,10 @@ impl Package {
 
     /// Save the package to a file
     pub fn save<P: AsRef<Path>>(&self, path: P) -> Result<()> {
-        let path = path.as_ref();
-        let file = std::fs::File::create(path)?;
-        self.save_writer(file)
+        let mut data = std::io::Cursor::new(Vec::new());
+        self.save_writer(&mut data)?;
+        super::io::write_file(path, data.into_inner())?;
+        Ok(())
     }
 
     /// Save the package to a writer
diff --git a/src/prelude.rs b/src/prelude.rs
index a09ae6e..38b810b 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -220,7 +220,7 @@ impl QuickPptx {
     /// Build and save to a file
     pub fn save(self, path: &str) -> crate::exc::Result<()> {
         let data = self.build()?;
-        std::fs::write(path, data)?;
+        crate::opc::io::write_file(path, data)?;
         Ok(())
     }
 }
-- 
2.43.0


From 7f0a8f305c7b2e761fc944ca701303df9f18ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 02/33] fix: interrupted writes and failing flushes while
 streaming a package

---
 src/generator/builder.rs | 13 +++++++------
 src/opc/io.rs            | 34 +++++++++++++++++++++++++++++++++-
 src/opc/package.rs       |  5 +++--
 3 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index ccec2dc..84a3976 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -5,6 +5,7 @@ use zip::write::FileOptions;
 use zip::ZipWriter;
 use crate::exc::Result;
 use crate::core::append_usize;
+use crate::opc::io::RetryWriter;
 use super::slide_content::SlideContent;
 use super::memory_profile::estimate_output_capacity;
 use super::package_cache::{self, print_affects_theme_parts};
@@ -209,12 +210,12 @@ pub fn create_pptx_to_writer<W: Write + Seek>(
     title: &str,
     slides: usize,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(writer);
+    let mut zip = ZipWriter::new(RetryWriter(writer));
     let options = FileOptions::default();
 
     write_package_files(&mut zip, &options, title, slides, None, None)?;
 
-    Ok(zip.finish()?)
+    Ok(zip.finish()?.0)
 }
 
 /// Create a PPTX file with custom content and write it directly to a writer (streaming API).
@@ -239,12 +240,12 @@ pub fn create_pptx_with_content_to_writer<W: Write + Seek>(
     slides: &[SlideContent],
     settings: Option<PresentationSettings>,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(writer);
+    let mut zip = ZipWriter::new(RetryWriter(writer));
     let options = FileOptions::default();
 
     write_package_files(&mut zip, &options, title, slides.len(), Some(slides), settings)?;
 
-    Ok(zip.finish()?)
+    Ok(zip.finish()?.0)
 }
 
 /// Lazy slide source - allows generating slides on-demand instead of all at once.
@@ -347,12 +348,12 @@ pub fn create_pptx_lazy_to_writer<W: Write + Seek>(
     slides: Box<dyn LazySlideSource>,
     settings: Option<PresentationSettings>,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(writer);
+    let mut zip = ZipWriter::new(RetryWriter(writer));
     let options = FileOptions::default();
 
     write_package_files_lazy(&mut zip, &options, title, slides.as_ref(), settings)?;
 
-    Ok(zip.finish()?)
+    Ok(zip.finish()?.0)
 }
 
 /// Chart metadata for slides
diff --git a/src/opc/io.rs b/src/opc/io.rs
index 3c608c8..435fc72 100644
--- a/src/opc/io.rs
+++ b/src/opc/io.rs
@@ -1,9 +1,41 @@
 //! I/O helpers shared by everything that writes packages and exports
 
 use std::fs::{self, File, OpenOptions};
-use std::io::{self, Write};
+use std::io::{self, Seek, SeekFrom, Write};
 use std::path::{Path, PathBuf};
 
+/// Writer adapter that retries interrupted calls.
+///
+/// The ZIP and deflate encoders pass `ErrorKind::Interrupted` through to their
+/// caller, which cannot resume an archive that is half written.
+pub(crate) struct RetryWriter<W>(pub(crate) W);
+
+impl<W: Write> Write for RetryWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        loop {
+            match self.0.write(buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                other => return other,
+            }
+        }
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        loop {
+            match self.0.flush() {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                other => return other,
+            }
+        }
+    }
+}
+
+impl<W: Seek> Seek for RetryWriter<W> {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        self.0.seek(pos)
+    }
+}
+
 /// Write a whole file so that `path` holds either its previous contents or
 /// all of `data`, whatever fails on the way.
 ///
diff --git a/src/opc/package.rs b/src/opc/package.rs
index 635b947..5f8b656 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -55,7 +55,7 @@ impl Package {
 
     /// Save the package to a writer
     pub fn save_writer<W: std::io::Write + std::io::Seek>(&self, writer: W) -> Result<()> {
-        let mut archive = zip::ZipWriter::new(writer);
+        let mut archive = zip::ZipWriter::new(super::io::RetryWriter(writer));
 
         for (path, content) in &self.parts {
             let options = zip::write::FileOptions::default();
@@ -63,7 +63,8 @@ impl Package {
             std::io::Write::write_all(&mut archive, content)?;
         }
 
-        archive.finish()?;
+        // A buffering writer is dropped here, which would hide a failing flush
+        std::io::Write::flush(&mut archive.finish()?)?;
 
         Ok(())
     }
-- 
2.43.0


From 746c568de5232c5044dd5b9d59dd77996760999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 03/33] fix: declare a content type for every embedded image
 format

---
 src/generator/package_xml.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ea5360d..503ebcd 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -4,6 +4,7 @@ use crate::core::{append_usize, escape_xml};
 use crate::generator::slide_content::presentation_settings::PresentationSettings;
 use crate::generator::slide_content::embedded_fonts::EmbeddedFontList;
 use crate::generator::charts::chart_embedding_filename;
+use crate::generator::images_xml::generate_image_content_type;
 use crate::generator::layout_parts::append_layout_content_type_overrides;
 use crate::generator::layout_parts::STANDARD_LAYOUT_COUNT;
 use crate::generator::theme_xml::layout_rel_target;
@@ -46,6 +47,18 @@ fn append_image_content_type_defaults(xml: &mut String, media_exts: &[String]) {
     if has_gif {
         xml.push_str(r#"<Default Extension="gif" ContentType="image/gif"/>"#);
     }
+
+    // Every other extension needs its own default, or its parts have no type
+    let mut others: Vec<String> = media_exts
+        .iter()
+        .map(|ext| ext.to_lowercase())
+        .filter(|ext| !matches!(ext.as_str(), "jpg" | "png" | "gif" | "rels" | "xml" | "xlsx"))
+        .collect();
+    others.sort();
+    others.dedup();
+    for ext in &others {
+        xml.push_str(&generate_image_content_type(ext));
+    }
 }
 
 pub fn content_types_opening(media_exts: &[String], chart_count: usize) -> String {
-- 
2.43.0


From c1ae177555e1adc0773cdc6eb5e55691482898f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 04/33] fix: escape the presentation title in the core
 properties

---
 src/generator/props_xml.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 9b23ef4..13d0be2 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -28,6 +28,7 @@ fn current_timestamp() -> String {
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
     let now = current_timestamp();
+    let title = xml_escape(title);
     format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/" xmlns:dcmitype="http://purl.org/dc/dcmitype/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
-- 
2.43.0


From b48b6335bb5c8f32000741d32add477c85bf648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 05/33] fix: lazy generation declares content types of
 signatures, fonts and ink

---
 src/generator/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 84a3976..536cdf4 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -986,6 +986,8 @@ fn write_content_types_lazy<W: Write + Seek>(
 <Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>"#,
     );
     super::layout_parts::append_layout_content_type_overrides(&mut content_types, STANDARD_LAYOUT_COUNT);
+    // The entries below are inserted before the closing tag
+    content_types.push_str("\n</Types>");
 
     if has_digital_signature(settings) {
         append_digital_signature_content_type(&mut content_types);
@@ -996,8 +998,6 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
-    content_types.push_str("\n</Types>");
-
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
-- 
2.43.0


From ff6a2f6f5fe037b90abed84686e1ece7575ff906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 06/33] fix: compression keeps used media and text, leaves no
 dangling references or temporary files

Media was judged unused by searching slide XML for file names, which slides
never contain; removing notes or properties left relationships and content
types behind; whitespace inside text was altered; concurrent in-memory calls
shared two fixed temporary files; a larger result underflowed.
---
 src/api.rs          |  28 +----
 src/opc/compress.rs | 273 +++++++++++++++++++++-----------------------
 src/opc/mod.rs      |   1 +
 src/opc/xml_edit.rs | 184 +++++++++++++++++++++++++++++
 4 files changed, 318 insertions(+), 168 deletions(-)
 create mode 100644 src/opc/xml_edit.rs

diff --git a/src/api.rs b/src/api.rs
index b2cabfd..cd8ddc4 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -399,35 +399,17 @@ impl Presentation {
         output_path: P,
         options: &crate::opc::compress::CompressionOptions,
     ) -> Result<crate::opc::compress::CompressionResult> {
-        // First save to temp file
-        let temp_dir = std::env::temp_dir();
-        let temp_path = temp_dir.join(format!("compress_{}.pptx", uuid::Uuid::new_v4()));
-        self.save(&temp_path)?;
-
-        // Compress
-        let result = crate::opc::compress::compress_pptx(&temp_path, output_path, options);
-
-        // Cleanup
-        let _ = std::fs::remove_file(&temp_path);
-
-        result
+        let (data, result) =
+            crate::opc::compress::compress_pptx_in_memory(&self.build()?, options)?;
+        crate::opc::io::write_file(output_path, data)?;
+        Ok(result)
     }
 
     /// Get file size analysis
     ///
     /// Returns analysis of what contributes to file size.
     pub fn analyze_size(&self) -> Result<crate::opc::compress::PptxAnalysis> {
-        // Save to temp file for analysis
-        let temp_dir = std::env::temp_dir();
-        let temp_path = temp_dir.join(format!("analyze_{}.pptx", uuid::Uuid::new_v4()));
-        self.save(&temp_path)?;
-
-        let analysis = crate::opc::compress::analyze_pptx(&temp_path);
-
-        // Cleanup
-        let _ = std::fs::remove_file(&temp_path);
-
-        analysis
+        crate::opc::compress::analyze_pptx_bytes(&self.build()?)
     }
 }
 
diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bb01efb..bedae17 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -7,10 +7,17 @@
 //! - Optimize XML (remove unnecessary whitespace)
 
 use super::Package;
+use super::xml_edit::{
+    attribute, elements, internal_target, rels_source, remove_elements, strip_whitespace,
+};
 use crate::exc::Result;
 use std::collections::HashSet;
 use std::path::Path;
 
+/// Extensions of media parts that are pictures
+const IMAGE_EXTENSIONS: &[&str] =
+    &["png", "jpg", "jpeg", "gif", "bmp", "tif", "tiff", "svg", "webp", "emf", "wmf"];
+
 /// Compression level options
 #[derive(Debug, Clone, Copy, PartialEq)]
 #[derive(Default)]
@@ -204,19 +211,25 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
     output_path: Q,
     options: &CompressionOptions,
 ) -> Result<CompressionResult> {
+    let data = std::fs::read(input_path.as_ref())?;
+    let (compressed, result) = compress_pptx_in_memory(&data, options)?;
+    super::io::write_file(output_path, compressed)?;
+    Ok(result)
+}
+
+/// Compress a PPTX in memory
+pub fn compress_pptx_in_memory(
+    data: &[u8],
+    options: &CompressionOptions,
+) -> Result<(Vec<u8>, CompressionResult)> {
     // Load package
-    let mut package = Package::open(input_path.as_ref())?;
+    let mut package = Package::open_reader(std::io::Cursor::new(data))?;
 
-    let original_size = std::fs::metadata(input_path.as_ref())?.len() as usize;
+    let original_size = data.len();
 
     let mut unused_media_removed = 0;
     let images_compressed = 0;
 
-    // Remove unused media files
-    if options.remove_unused_media {
-        unused_media_removed = remove_unused_media(&mut package)?;
-    }
-
     // Remove properties if requested
     if options.remove_properties {
         remove_document_properties(&mut package);
@@ -224,131 +237,140 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
 
     // Remove notes if requested
     if options.remove_notes {
-        remove_notes_slides(&mut package)?;
+        remove_notes_slides(&mut package);
+    }
+
+    // Remove unused media files
+    if options.remove_unused_media {
+        unused_media_removed = remove_unused_media(&mut package);
     }
 
     // Optimize XML
     if options.optimize_xml {
-        optimize_xml_content(&mut package)?;
+        optimize_xml_content(&mut package);
     }
 
     // Save compressed package
-    package.save(output_path.as_ref())?;
+    let mut output = std::io::Cursor::new(Vec::new());
+    package.save_writer(&mut output)?;
+    let output = output.into_inner();
 
-    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+    let compressed_size = output.len();
     let reduction_percent = if original_size > 0 {
-        ((original_size - compressed_size) as f64 / original_size as f64) * 100.0
+        (original_size as f64 - compressed_size as f64) / original_size as f64 * 100.0
     } else {
         0.0
     };
 
     let target_achieved = options.target_size == 0 || compressed_size <= options.target_size;
 
-    Ok(CompressionResult {
-        original_size,
-        compressed_size,
-        reduction_percent,
-        unused_media_removed,
-        images_compressed,
-        target_achieved,
-    })
+    Ok((
+        output,
+        CompressionResult {
+            original_size,
+            compressed_size,
+            reduction_percent,
+            unused_media_removed,
+            images_compressed,
+            target_achieved,
+        },
+    ))
 }
 
-/// Compress a PPTX in memory
-pub fn compress_pptx_in_memory(
-    data: &[u8],
-    options: &CompressionOptions,
-) -> Result<(Vec<u8>, CompressionResult)> {
-    // Write to temp file
-    let temp_dir = std::env::temp_dir();
-    let temp_input = temp_dir.join("compress_input.pptx");
-    let temp_output = temp_dir.join("compress_output.pptx");
-
-    std::fs::write(&temp_input, data)?;
-
-    let result = compress_pptx(&temp_input, &temp_output, options)?;
-    let output_data = std::fs::read(&temp_output)?;
+/// Paths of the parts that some relationship of a stored part leads to
+fn related_parts(package: &Package) -> HashSet<String> {
+    let mut related = HashSet::new();
+    for rels_path in package.part_paths() {
+        let Some(source) = rels_source(rels_path) else {
+            continue;
+        };
+        if !source.is_empty() && !package.has_part(&source) {
+            continue;
+        }
+        if let Some(xml) = package.get_part_string(rels_path) {
+            for element in elements(&xml, "Relationship") {
+                related.extend(internal_target(rels_path, &xml[element.tag]));
+            }
+        }
+    }
+    related
+}
 
-    // Cleanup
-    let _ = std::fs::remove_file(&temp_input);
-    let _ = std::fs::remove_file(&temp_output);
+/// Remove parts together with their relationships, every relationship that
+/// leads to them and their content type overrides
+fn remove_parts(package: &mut Package, removed: &HashSet<String>) {
+    if removed.is_empty() {
+        return;
+    }
+    for path in removed {
+        package.remove_part(path);
+        let (dir, file) = path.rsplit_once('/').unwrap_or(("", path));
+        let dir = if dir.is_empty() { String::new() } else { format!("{dir}/") };
+        package.remove_part(&format!("{dir}_rels/{file}.rels"));
+    }
 
-    Ok((output_data, result))
+    let paths: Vec<String> = package.part_paths().iter().map(|p| p.to_string()).collect();
+    for path in paths {
+        let Some(xml) = package.get_part(&path).and_then(|b| std::str::from_utf8(b).ok()) else {
+            continue;
+        };
+        let edited = if path == "[Content_Types].xml" {
+            remove_elements(xml, "Override", |tag| {
+                attribute(tag, "PartName")
+                    .is_some_and(|name| removed.contains(name.trim_start_matches('/')))
+            })
+        } else if rels_source(&path).is_some() {
+            remove_elements(xml, "Relationship", |tag| {
+                internal_target(&path, tag).is_some_and(|target| removed.contains(&target))
+            })
+        } else {
+            continue;
+        };
+        if edited != xml {
+            package.add_part(path, edited.into_bytes());
+        }
+    }
 }
 
-/// Remove unused media files from package
-fn remove_unused_media(package: &mut Package) -> Result<usize> {
-    let media_paths: Vec<String> = package
+/// Remove media files that no relationship leads to
+fn remove_unused_media(package: &mut Package) -> usize {
+    let related = related_parts(package);
+    let unused: HashSet<String> = package
         .part_paths()
         .iter()
-        .filter(|p| p.starts_with("ppt/media/"))
+        .filter(|p| p.starts_with("ppt/media/") && !related.contains(**p))
         .map(|s| s.to_string())
         .collect();
 
-    let mut referenced = HashSet::new();
-    let mut removed = 0;
-
-    // Find all media references in slide files
-    for path in package.part_paths() {
-        if path.starts_with("ppt/slides/slide") && path.ends_with(".xml")
-            && let Some(content) = package.get_part_string(path) {
-                // Look for media references like rId5, image1.png, etc.
-                for media_path in &media_paths {
-                    let filename = Path::new(media_path)
-                        .file_name()
-                        .and_then(|n| n.to_str())
-                        .unwrap_or("");
-                    if content.contains(filename) || content.contains(&media_path[4..]) {
-                        referenced.insert(media_path.clone());
-                    }
-                }
-            }
-    }
-
-    // Remove unreferenced media
-    for media_path in media_paths {
-        if !referenced.contains(&media_path) {
-            package.remove_part(&media_path);
-            removed += 1;
-        }
-    }
-
-    Ok(removed)
+    remove_parts(package, &unused);
+    unused.len()
 }
 
-/// Remove document properties
+/// Remove document properties (core, app, custom) and the thumbnail
 fn remove_document_properties(package: &mut Package) {
-    // Remove core properties
-    package.remove_part("docProps/core.xml");
-    // Remove app properties
-    package.remove_part("docProps/app.xml");
-    // Remove custom properties
-    package.remove_part("docProps/custom.xml");
-    // Remove thumbnail
-    package.remove_part("docProps/thumbnail.jpeg");
+    let removed = [
+        "docProps/core.xml",
+        "docProps/app.xml",
+        "docProps/custom.xml",
+        "docProps/thumbnail.jpeg",
+    ];
+    remove_parts(package, &removed.iter().map(|s| s.to_string()).collect());
 }
 
 /// Remove notes slides
-fn remove_notes_slides(package: &mut Package) -> Result<()> {
-    let notes_paths: Vec<String> = package
+fn remove_notes_slides(package: &mut Package) {
+    let notes: HashSet<String> = package
         .part_paths()
         .iter()
-        .filter(|p| p.starts_with("ppt/notesSlides/"))
+        .filter(|p| p.starts_with("ppt/notesSlides/") && rels_source(p).is_none())
         .map(|s| s.to_string())
         .collect();
 
-    for path in notes_paths {
-        package.remove_part(&path);
-        // Also remove relationships
-        let rels_path = path.replace("notesSlides/", "notesSlides/_rels/") + ".rels";
-        package.remove_part(&rels_path);
-    }
-
-    Ok(())
+    remove_parts(package, &notes);
 }
 
 /// Optimize XML content (minimize whitespace)
-fn optimize_xml_content(package: &mut Package) -> Result<()> {
+fn optimize_xml_content(package: &mut Package) {
     let xml_paths: Vec<String> = package
         .part_paths()
         .iter()
@@ -357,65 +379,28 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
         .collect();
 
     for path in xml_paths {
-        if let Some(content) = package.get_part_string(&path) {
-            let optimized = minimize_xml(&content);
+        // Parts in another encoding are left alone
+        if let Some(content) = package.get_part(&path).and_then(|b| std::str::from_utf8(b).ok()) {
+            let optimized = minimize_xml(content);
             package.add_part(path, optimized.into_bytes());
         }
     }
-
-    Ok(())
 }
 
-/// Minimize XML by removing unnecessary whitespace
+/// Minimize XML by removing the whitespace between elements
 fn minimize_xml(xml: &str) -> String {
-    let mut result = String::with_capacity(xml.len());
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut prev_char = ' ';
-
-    for ch in xml.chars() {
-        match ch {
-            '"' if !in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '"' if in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '<' if !in_string => {
-                in_tag = true;
-                // Remove whitespace before tag
-                if (prev_char == ' ' || prev_char == '\n' || prev_char == '\t')
-                    && !result.is_empty() {
-                        result.pop();
-                    }
-                result.push(ch);
-            }
-            '>' if !in_string => {
-                in_tag = false;
-                result.push(ch);
-            }
-            ' ' | '\n' | '\t' | '\r' if !in_tag && !in_string => {
-                // Skip whitespace between tags
-                if prev_char != ' ' {
-                    result.push(' ');
-                }
-            }
-            _ => {
-                result.push(ch);
-            }
-        }
-        prev_char = ch;
-    }
-
-    result
+    strip_whitespace(xml)
 }
 
 /// Analyze PPTX file and return size breakdown
 pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
-    let package = Package::open(path.as_ref())?;
-    let total_size = std::fs::metadata(path.as_ref())?.len() as usize;
+    analyze_pptx_bytes(&std::fs::read(path.as_ref())?)
+}
+
+/// Analyze a PPTX in memory
+pub(crate) fn analyze_pptx_bytes(data: &[u8]) -> Result<PptxAnalysis> {
+    let package = Package::open_reader(std::io::Cursor::new(data))?;
+    let total_size = data.len();
 
     let mut images_size = 0;
     let mut xml_size = 0;
@@ -430,10 +415,8 @@ pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
             let size = data.len();
 
             if part_path.starts_with("ppt/media/") {
-                if part_path.ends_with(".png")
-                    || part_path.ends_with(".jpg")
-                    || part_path.ends_with(".jpeg")
-                {
+                let extension = part_path.rsplit('.').next().unwrap_or("").to_lowercase();
+                if IMAGE_EXTENSIONS.contains(&extension.as_str()) {
                     images_size += size;
                     image_count += 1;
                 } else {
diff --git a/src/opc/mod.rs b/src/opc/mod.rs
index 00b798c..a6df3fe 100644
--- a/src/opc/mod.rs
+++ b/src/opc/mod.rs
@@ -3,6 +3,7 @@
 pub mod package;
 pub mod compress;
 pub mod io;
+pub(crate) mod xml_edit;
 
 pub use package::Package;
 pub use compress::{
diff --git a/src/opc/xml_edit.rs b/src/opc/xml_edit.rs
new file mode 100644
index 0000000..10cfdc2
--- /dev/null
+++ b/src/opc/xml_edit.rs
@@ -0,0 +1,184 @@
+//! In-place edits of package XML (relationships, content types, slide lists)
+//!
+//! Edits keep every byte outside the elements they touch.
+
+use std::ops::Range;
+
+/// An element found in an XML text
+pub(crate) struct Element {
+    /// Position of the whole element, including its end tag
+    pub range: Range<usize>,
+    /// Position of its start tag
+    pub tag: Range<usize>,
+}
+
+/// Position of the next markup item (`<...>`) at or after `from`
+fn next_markup(xml: &str, from: usize) -> Option<Range<usize>> {
+    let start = from + xml.get(from..)?.find('<')?;
+    let rest = &xml[start..];
+    let len = if rest.starts_with("<!--") {
+        rest.find("-->")? + 3
+    } else if rest.starts_with("<![CDATA[") {
+        rest.find("]]>")? + 3
+    } else if rest.starts_with("<?") {
+        rest.find("?>")? + 2
+    } else {
+        let mut quote = None;
+        let end = rest.char_indices().find(|&(_, c)| match quote {
+            Some(q) => {
+                if c == q {
+                    quote = None;
+                }
+                false
+            }
+            None => {
+                if c == '"' || c == '\'' {
+                    quote = Some(c);
+                }
+                c == '>'
+            }
+        })?;
+        end.0 + 1
+    };
+    Some(start..start + len)
+}
+
+/// Local name of a start or end tag, if the markup is one
+fn tag_name(markup: &str) -> Option<&str> {
+    let body = markup.strip_prefix('<')?;
+    let body = body.strip_prefix('/').unwrap_or(body);
+    if body.starts_with(['!', '?']) {
+        return None;
+    }
+    let end = body.find(|c: char| c.is_whitespace() || c == '/' || c == '>')?;
+    body[..end].rsplit(':').next()
+}
+
+/// All elements with the given local name, outermost only
+pub(crate) fn elements(xml: &str, name: &str) -> Vec<Element> {
+    let mut found = Vec::new();
+    let mut open: Option<(Range<usize>, usize)> = None;
+    let mut pos = 0;
+    while let Some(markup) = next_markup(xml, pos) {
+        pos = markup.end;
+        let text = &xml[markup.clone()];
+        if tag_name(text) != Some(name) {
+            continue;
+        }
+        if text.starts_with("</") {
+            match open.take() {
+                Some((tag, 0)) => found.push(Element { range: tag.start..markup.end, tag }),
+                Some((tag, depth)) => open = Some((tag, depth - 1)),
+                None => {}
+            }
+        } else if text.ends_with("/>") {
+            if open.is_none() {
+                found.push(Element { range: markup.clone(), tag: markup });
+            }
+        } else {
+            open = match open {
+                Some((tag, depth)) => Some((tag, depth + 1)),
+                None => Some((markup, 0)),
+            };
+        }
+    }
+    found
+}
+
+/// Value of an attribute of a start tag (`name` as written, with its prefix)
+pub(crate) fn attribute(tag: &str, name: &str) -> Option<String> {
+    let mut rest = tag.strip_prefix('<')?;
+    rest = &rest[rest.find(char::is_whitespace)?..];
+    loop {
+        rest = rest.trim_start();
+        let eq = rest.find('=')?;
+        let key = rest[..eq].trim_end();
+        let value = rest[eq + 1..].trim_start();
+        let quote = value.chars().next().filter(|c| matches!(c, '"' | '\''))?;
+        let end = value[1..].find(quote)?;
+        if key == name {
+            return Some(
+                value[1..1 + end]
+                    .replace("&lt;", "<")
+                    .replace("&gt;", ">")
+                    .replace("&quot;", "\"")
+                    .replace("&apos;", "'")
+                    .replace("&amp;", "&"),
+            );
+        }
+        rest = &value[end + 2..];
+    }
+}
+
+/// Remove every element with the given local name whose start tag matches
+pub(crate) fn remove_elements(xml: &str, name: &str, matches: impl Fn(&str) -> bool) -> String {
+    let mut result = String::with_capacity(xml.len());
+    let mut pos = 0;
+    for element in elements(xml, name) {
+        if matches(&xml[element.tag]) {
+            result.push_str(&xml[pos..element.range.start]);
+            pos = element.range.end;
+        }
+    }
+    result.push_str(&xml[pos..]);
+    result
+}
+
+/// Path of the part a relationship file belongs to ("" for the package itself)
+pub(crate) fn rels_source(rels_path: &str) -> Option<String> {
+    let (dir, file) = rels_path.rsplit_once('/')?;
+    let file = file.strip_suffix(".rels")?;
+    let dir = dir.strip_suffix("_rels")?;
+    Some(format!("{dir}{file}"))
+}
+
+/// Package path an internal relationship of `rels_path` leads to
+pub(crate) fn resolve_target(rels_path: &str, target: &str) -> String {
+    let target = target.split('#').next().unwrap_or(target);
+    if let Some(absolute) = target.strip_prefix('/') {
+        return absolute.to_string();
+    }
+    let source = rels_source(rels_path).unwrap_or_default();
+    let mut segments: Vec<&str> = source.split('/').collect();
+    segments.pop();
+    for segment in target.split('/') {
+        match segment {
+            "" | "." => {}
+            ".." => {
+                segments.pop();
+            }
+            other => segments.push(other),
+        }
+    }
+    segments.join("/")
+}
+
+/// Package path a `<Relationship>` tag leads to, unless it is external
+pub(crate) fn internal_target(rels_path: &str, tag: &str) -> Option<String> {
+    if attribute(tag, "TargetMode").as_deref() == Some("External") {
+        return None;
+    }
+    attribute(tag, "Target").map(|target| resolve_target(rels_path, &target))
+}
+
+/// XML text without the whitespace between its elements
+///
+/// Text inside an element that has no child elements is content and kept.
+pub(crate) fn strip_whitespace(xml: &str) -> String {
+    let mut result = String::with_capacity(xml.len());
+    let mut pos = 0;
+    let mut after_start_tag = false;
+    while let Some(markup) = next_markup(xml, pos) {
+        let gap = &xml[pos..markup.start];
+        let text = &xml[markup.clone()];
+        let leaf = after_start_tag && text.starts_with("</");
+        if leaf || !gap.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) {
+            result.push_str(gap);
+        }
+        result.push_str(text);
+        after_start_tag = tag_name(text).is_some() && !text.starts_with("</") && !text.ends_with("/>");
+        pos = markup.end;
+    }
+    result.push_str(xml[pos..].trim_end());
+    result
+}
-- 
2.43.0


From a2163fa08230b29951de16dd82675e07806a2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 07/33] fix: carry templates completely, read images once, and
 reject lazy sources that miss a slide

---
 src/generator/builder.rs        | 376 ++++++++++++++++++--------------
 src/generator/media_registry.rs |  18 +-
 src/generator/memory_profile.rs |   4 +-
 src/generator/template.rs       | 323 ++++++++++++++++++++++++---
 4 files changed, 529 insertions(+), 192 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 536cdf4..8dfdc25 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1,9 +1,10 @@
 //! PPTX builder - orchestrates ZIP creation and file writing
 
+use std::borrow::Cow;
 use std::io::{Write, Seek, Cursor};
 use zip::write::FileOptions;
 use zip::ZipWriter;
-use crate::exc::Result;
+use crate::exc::{PptxError, Result};
 use crate::core::append_usize;
 use crate::opc::io::RetryWriter;
 use super::slide_content::SlideContent;
@@ -36,6 +37,7 @@ use crate::generator::charts::{
 };
 use crate::generator::slide_content::print_settings::PrintWhat;
 use crate::generator::slide_content::presentation_settings::PresentationSettings;
+use super::images::{Image, ImageSource};
 use super::media_registry::MediaRegistry;
 
 fn zip_options() -> FileOptions {
@@ -47,8 +49,34 @@ fn slide_content_rel_start(has_notes: bool, image_count: usize) -> usize {
     2 + usize::from(has_notes) + image_count
 }
 
-fn build_media_registry(slides: &[SlideContent]) -> MediaRegistry {
-    let mut registry = MediaRegistry::default();
+/// Slides whose images are all in memory. Every image file or URL is read once,
+/// so that all parts of the package agree; images that cannot be read are left out.
+fn load_images(slides: &[SlideContent]) -> Cow<'_, [SlideContent]> {
+    let in_memory = |image: &Image| match &image.source {
+        Some(ImageSource::Bytes(_)) => true,
+        Some(ImageSource::Base64(_)) => image.get_bytes().is_some(),
+        _ => false,
+    };
+    if slides.iter().all(|slide| slide.images.iter().all(in_memory)) {
+        return Cow::Borrowed(slides);
+    }
+    let mut slides = slides.to_vec();
+    for image in slides.iter_mut().flat_map(|slide| slide.images.iter_mut()) {
+        image.source = image.get_bytes().map(ImageSource::Bytes);
+    }
+    for slide in &mut slides {
+        slide.images.retain(|image| image.source.is_some());
+    }
+    Cow::Owned(slides)
+}
+
+/// First media number a deck may use.
+fn media_registry_for(template: Option<&PptxTemplate>) -> MediaRegistry {
+    MediaRegistry::after(template.map_or(0, |tmpl| tmpl.last_image_number()))
+}
+
+fn build_media_registry(slides: &[SlideContent], template: Option<&PptxTemplate>) -> MediaRegistry {
+    let mut registry = media_registry_for(template);
     for slide in slides {
         for image in &slide.images {
             if let Some(bytes) = image.get_bytes() {
@@ -59,20 +87,6 @@ fn build_media_registry(slides: &[SlideContent]) -> MediaRegistry {
     registry
 }
 
-fn build_media_registry_lazy(slides: &dyn LazySlideSource) -> MediaRegistry {
-    let mut registry = MediaRegistry::default();
-    for i in 0..slides.slide_count() {
-        if let Some(slide) = slides.generate_slide(i) {
-            for image in &slide.images {
-                if let Some(bytes) = image.get_bytes() {
-                    registry.image_number(&bytes, &image.extension());
-                }
-            }
-        }
-    }
-    registry
-}
-
 fn slide_image_rel_targets(slide: &SlideContent, registry: &MediaRegistry) -> Vec<(usize, String)> {
     let mut images = Vec::with_capacity(slide.images.len());
     for image in &slide.images {
@@ -84,6 +98,75 @@ fn slide_image_rel_targets(slide: &SlideContent, registry: &MediaRegistry) -> Ve
     images
 }
 
+/// What the parts that list all slides need to know about each lazy slide.
+struct LazySlidePlan {
+    title: String,
+    has_notes: bool,
+    chart_count: usize,
+    has_ink: bool,
+    /// Media number and extension of every image, `None` if it cannot be read
+    images: Vec<Option<(usize, String)>>,
+}
+
+/// Generate a lazy slide the source has announced.
+fn generate_announced_slide(slides: &dyn LazySlideSource, index: usize) -> Result<SlideContent> {
+    slides.generate_slide(index).ok_or_else(|| {
+        PptxError::InvalidState(format!("slide source supplied no slide {}", index + 1))
+    })
+}
+
+/// Plan all slides of a lazy source, reading each image once.
+fn plan_lazy_slides(
+    slides: &dyn LazySlideSource,
+    slide_count: usize,
+    template: Option<&PptxTemplate>,
+) -> Result<(Vec<LazySlidePlan>, MediaRegistry)> {
+    let mut registry = media_registry_for(template);
+    let mut plans = Vec::with_capacity(slide_count);
+    for i in 0..slide_count {
+        let slide = generate_announced_slide(slides, i)?;
+        let images = slide
+            .images
+            .iter()
+            .map(|image| {
+                let ext = image.extension();
+                image.get_bytes().map(|bytes| (registry.image_number(&bytes, &ext), ext))
+            })
+            .collect();
+        plans.push(LazySlidePlan {
+            has_notes: slide.notes.is_some(),
+            chart_count: slide.charts.len(),
+            has_ink: slide.ink_annotations.is_some(),
+            images,
+            title: slide.title,
+        });
+    }
+    Ok((plans, registry))
+}
+
+/// Generate a planned slide again, without the images that could not be read.
+fn generate_planned_slide(
+    slides: &dyn LazySlideSource,
+    index: usize,
+    plan: &LazySlidePlan,
+) -> Result<SlideContent> {
+    let mut slide = generate_announced_slide(slides, index)?;
+    if slide.title != plan.title
+        || slide.notes.is_some() != plan.has_notes
+        || slide.charts.len() != plan.chart_count
+        || slide.ink_annotations.is_some() != plan.has_ink
+        || slide.images.len() != plan.images.len()
+    {
+        return Err(PptxError::InvalidState(format!(
+            "slide source supplied different contents for slide {}",
+            index + 1
+        )));
+    }
+    let mut planned = plan.images.iter();
+    slide.images.retain(|_| planned.next().is_some_and(Option::is_some));
+    Ok(slide)
+}
+
 /// Collect hyperlink relationship XML (`<Relationship .../>`) for every shape on
 /// the slide whose hyperlink has an assigned relationship id. The slide XML
 /// references these ids via `<a:hlinkClick r:id="..."/>`, so the matching
@@ -402,17 +485,14 @@ fn collect_chart_info(slides: Option<&[SlideContent]>) -> ChartInfo {
     }
 }
 
-/// Collect chart metadata from lazy slide source
-fn collect_chart_info_lazy(slides: &dyn LazySlideSource) -> ChartInfo {
+/// Collect chart metadata from planned lazy slides
+fn collect_chart_info_lazy(plans: &[LazySlidePlan]) -> ChartInfo {
     let mut total_charts = 0;
-    let mut slide_start_indices = Vec::with_capacity(slides.slide_count());
+    let mut slide_start_indices = Vec::with_capacity(plans.len());
 
-    for i in 0..slides.slide_count() {
+    for plan in plans {
         slide_start_indices.push(total_charts + 1);
-        total_charts += slides
-            .slide_features(i)
-            .map(|(_, chart_count)| chart_count)
-            .unwrap_or(0);
+        total_charts += plan.chart_count;
     }
 
     ChartInfo {
@@ -483,22 +563,18 @@ fn collect_slide_titles(custom_slides: Option<&[SlideContent]>, slide_count: usi
 }
 
 /// Collect slide titles for `docProps/app.xml` (lazy version).
-fn collect_slide_titles_lazy(slides: &dyn LazySlideSource, slide_count: usize) -> Vec<String> {
-    let mut titles = Vec::with_capacity(slide_count);
-    for i in 0..slide_count {
-        let title = slides
-            .generate_slide(i)
-            .map(|s| {
-                if s.title.trim().is_empty() {
-                    format!("Slide {}", i + 1)
-                } else {
-                    s.title
-                }
-            })
-            .unwrap_or_else(|| format!("Slide {}", i + 1));
-        titles.push(title);
-    }
-    titles
+fn collect_slide_titles_lazy(plans: &[LazySlidePlan]) -> Vec<String> {
+    plans
+        .iter()
+        .enumerate()
+        .map(|(i, plan)| {
+            if plan.title.trim().is_empty() {
+                format!("Slide {}", i + 1)
+            } else {
+                plan.title.clone()
+            }
+        })
+        .collect()
 }
 
 /// Write content types XML
@@ -510,11 +586,10 @@ fn write_content_types<W: Write + Seek>(
     chart_info: &ChartInfo,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
+    media_registry: &MediaRegistry,
 ) -> Result<()> {
-    let media_exts = custom_slides
-        .map(build_media_registry)
-        .map(|registry| registry.extensions())
-        .unwrap_or_default();
+    let media_exts = media_registry.extensions();
     let mut content_types = create_content_types_xml_with_notes_and_charts(
         slide_count,
         custom_slides,
@@ -535,6 +610,10 @@ fn write_content_types<W: Write + Seek>(
         .unwrap_or(0);
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
+    if let Some(tmpl) = template {
+        content_types = tmpl.declare_content_types(&content_types);
+    }
+
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
@@ -548,13 +627,18 @@ fn write_presentation_relationships<W: Write + Seek>(
     has_notes: bool,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
-    let pres_rels = if let Some(fonts) = embedded_fonts(settings) {
+    let mut pres_rels = if let Some(fonts) = embedded_fonts(settings) {
         create_presentation_rels_xml_full_with_fonts(slide_count, has_notes, has_handout, fonts)
     } else {
         create_presentation_rels_xml_full(slide_count, has_notes, has_handout)
     };
 
+    if let Some(tmpl) = template {
+        pres_rels = tmpl.link_relationships(&pres_rels);
+    }
+
     zip.start_file("ppt/_rels/presentation.xml.rels", *options)?;
     zip.write_all(pres_rels.as_bytes())?;
     Ok(())
@@ -565,6 +649,7 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let pres_props = create_pres_props_xml(settings);
     zip.start_file("ppt/presProps.xml", *options)?;
@@ -574,17 +659,25 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip.start_file("ppt/viewProps.xml", *options)?;
     zip.write_all(view_props.as_bytes())?;
 
-    let table_styles = create_table_styles_xml();
+    let table_styles = template
+        .and_then(|tmpl| tmpl.table_styles())
+        .unwrap_or(create_table_styles_xml().as_bytes());
     zip.start_file("ppt/tableStyles.xml", *options)?;
-    zip.write_all(table_styles.as_bytes())?;
+    zip.write_all(table_styles)?;
     Ok(())
 }
 
+/// Generated text with the notes and handout theme names the template leaves free.
+fn theme_name(text: &str, template: Option<&PptxTemplate>) -> String {
+    template.map_or_else(|| text.to_string(), |tmpl| tmpl.rename_themes(text))
+}
+
 /// Write handout master when print settings use handouts.
 fn write_handout_master<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     use crate::generator::slide_content::print_settings::PrintSettings;
 
@@ -596,10 +689,10 @@ fn write_handout_master<W: Write + Seek>(
     zip.start_file("ppt/handoutMasters/handoutMaster1.xml", *options)?;
     zip.write_all(handout_xml.as_bytes())?;
 
-    zip.start_file("ppt/theme/theme3.xml", *options)?;
+    zip.start_file(theme_name("ppt/theme/theme3.xml", template), *options)?;
     zip.write_all(office_theme_xml().as_bytes())?;
 
-    let rels = create_handout_master_rels_xml();
+    let rels = theme_name(&create_handout_master_rels_xml(), template);
     zip.start_file("ppt/handoutMasters/_rels/handoutMaster1.xml.rels", *options)?;
     zip.write_all(rels.as_bytes())?;
     Ok(())
@@ -609,15 +702,16 @@ fn write_handout_master<W: Write + Seek>(
 fn write_notes_master<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let notes_master = create_notes_master_xml();
     zip.start_file("ppt/notesMasters/notesMaster1.xml", *options)?;
     zip.write_all(notes_master.as_bytes())?;
 
-    zip.start_file("ppt/theme/theme2.xml", *options)?;
+    zip.start_file(theme_name("ppt/theme/theme2.xml", template), *options)?;
     zip.write_all(office_theme_xml().as_bytes())?;
 
-    let notes_master_rels = create_notes_master_rels_xml();
+    let notes_master_rels = theme_name(&create_notes_master_rels_xml(), template);
     zip.start_file("ppt/notesMasters/_rels/notesMaster1.xml.rels", *options)?;
     zip.write_all(notes_master_rels.as_bytes())?;
     Ok(())
@@ -633,14 +727,15 @@ fn write_theme_and_layouts<W: Write + Seek>(
     let print = settings.and_then(|s| s.print.as_ref());
 
     if let Some(tmpl) = template {
-        for (path, data) in tmpl.parts() {
+        let theme = settings.and_then(|s| s.theme.as_ref());
+        for (path, data) in tmpl.sorted_parts() {
             zip.start_file(path, *options)?;
-            zip.write_all(data)?;
-        }
-        if let Some(theme) = settings.and_then(|s| s.theme.as_ref()) {
-            let theme_xml = create_theme_xml(Some(theme));
-            zip.start_file("ppt/theme/theme1.xml", *options)?;
-            zip.write_all(theme_xml.as_bytes())?;
+            match theme {
+                Some(theme) if tmpl.theme_path() == Some(path) => {
+                    zip.write_all(create_theme_xml(Some(theme)).as_bytes())?;
+                }
+                _ => zip.write_all(data)?,
+            }
         }
         return Ok(());
     }
@@ -719,6 +814,8 @@ fn write_package_files<W: Write + Seek>(
     custom_slides: Option<&[SlideContent]>,
     mut settings: Option<PresentationSettings>,
 ) -> Result<()> {
+    let loaded_slides = custom_slides.map(load_images);
+    let custom_slides = loaded_slides.as_deref();
     let has_notes = custom_slides
         .map(|slides| slides.iter().any(|s| s.notes.is_some()))
         .unwrap_or(false);
@@ -726,11 +823,12 @@ fn write_package_files<W: Write + Seek>(
     prepare_settings(&mut settings, slide_count, has_notes, has_handout);
     let has_signature = has_digital_signature(settings.as_ref());
     let template = load_template(settings.as_ref())?;
+    let media_registry = build_media_registry(custom_slides.unwrap_or_default(), template.as_ref());
 
     let chart_info = collect_chart_info(custom_slides);
 
     // 1. Content types
-    write_content_types(zip, options, slide_count, custom_slides, &chart_info, has_handout, settings.as_ref())?;
+    write_content_types(zip, options, slide_count, custom_slides, &chart_info, has_handout, settings.as_ref(), template.as_ref(), &media_registry)?;
 
     // 2. Package relationships
     let rels = create_rels_xml_with_signature(has_signature);
@@ -738,23 +836,26 @@ fn write_package_files<W: Write + Seek>(
     zip.write_all(rels.as_bytes())?;
 
     // 3. Presentation relationships
-    write_presentation_relationships(zip, options, slide_count, has_notes, has_handout, settings.as_ref())?;
+    write_presentation_relationships(zip, options, slide_count, has_notes, has_handout, settings.as_ref(), template.as_ref())?;
 
     // 4. Presentation document
-    let presentation = if let Some(fonts) = embedded_fonts(settings.as_ref()) {
+    let mut presentation = if let Some(fonts) = embedded_fonts(settings.as_ref()) {
         create_presentation_xml_with_fonts(title, slide_count, has_notes, has_handout, fonts)
     } else {
         create_presentation_xml(title, slide_count, has_notes, has_handout)
     };
+    if let Some(tmpl) = template.as_ref() {
+        presentation = tmpl.list_masters(&presentation);
+    }
     zip.start_file("ppt/presentation.xml", *options)?;
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts (presProps, viewProps, tableStyles)
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master (when printing handouts)
     if has_handout {
-        write_handout_master(zip, options, settings.as_ref())?;
+        write_handout_master(zip, options, settings.as_ref(), template.as_ref())?;
     }
 
     // 7. Slides
@@ -768,12 +869,13 @@ fn write_package_files<W: Write + Seek>(
         &chart_info.slide_start_indices,
         slide_count,
         template.as_ref(),
+        &media_registry,
     )?;
 
     // 9. Notes relationships and master
     if has_notes {
         write_notes_relationships(zip, options, custom_slides)?;
-        write_notes_master(zip, options)?;
+        write_notes_master(zip, options, template.as_ref())?;
     }
 
     // 10. Theme and layouts
@@ -792,7 +894,7 @@ fn write_package_files<W: Write + Seek>(
     }
 
     // 13. Images
-    write_images(zip, options, custom_slides)?;
+    write_images(zip, options, &media_registry)?;
 
     // 14. Embedded font data parts
     if let Some(fonts) = embedded_fonts(settings.as_ref()) {
@@ -816,21 +918,18 @@ fn write_package_files_lazy<W: Write + Seek>(
     mut settings: Option<PresentationSettings>,
 ) -> Result<()> {
     let slide_count = slides.slide_count();
-    let has_notes = (0..slide_count).any(|i| {
-        slides
-            .slide_features(i)
-            .map(|(notes, _)| notes)
-            .unwrap_or(false)
-    });
+    let template = load_template(settings.as_ref())?;
+    let (plans, media_registry) = plan_lazy_slides(slides, slide_count, template.as_ref())?;
+    let notes_count = plans.iter().filter(|plan| plan.has_notes).count();
+    let has_notes = notes_count > 0;
     let has_handout = uses_handouts(settings.as_ref());
     prepare_settings(&mut settings, slide_count, has_notes, has_handout);
     let has_signature = has_digital_signature(settings.as_ref());
-    let template = load_template(settings.as_ref())?;
 
-    let chart_info = collect_chart_info_lazy(slides);
+    let chart_info = collect_chart_info_lazy(&plans);
 
     // 1. Content types (lazy version)
-    write_content_types_lazy(zip, options, slide_count, slides, &chart_info, has_handout, settings.as_ref())?;
+    write_content_types_lazy(zip, options, &plans, &chart_info, has_handout, settings.as_ref(), template.as_ref(), &media_registry)?;
 
     // 2. Package relationships
     let rels = create_rels_xml_with_signature(has_signature);
@@ -838,23 +937,26 @@ fn write_package_files_lazy<W: Write + Seek>(
     zip.write_all(rels.as_bytes())?;
 
     // 3. Presentation relationships
-    write_presentation_relationships(zip, options, slide_count, has_notes, has_handout, settings.as_ref())?;
+    write_presentation_relationships(zip, options, slide_count, has_notes, has_handout, settings.as_ref(), template.as_ref())?;
 
     // 4. Presentation document
-    let presentation = if let Some(fonts) = embedded_fonts(settings.as_ref()) {
+    let mut presentation = if let Some(fonts) = embedded_fonts(settings.as_ref()) {
         create_presentation_xml_with_fonts(title, slide_count, has_notes, has_handout, fonts)
     } else {
         create_presentation_xml(title, slide_count, has_notes, has_handout)
     };
+    if let Some(tmpl) = template.as_ref() {
+        presentation = tmpl.list_masters(&presentation);
+    }
     zip.start_file("ppt/presentation.xml", *options)?;
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master
     if has_handout {
-        write_handout_master(zip, options, settings.as_ref())?;
+        write_handout_master(zip, options, settings.as_ref(), template.as_ref())?;
     }
 
     // 7–8–12. Slides, relationships, and charts (single pass per slide)
@@ -862,33 +964,26 @@ fn write_package_files_lazy<W: Write + Seek>(
         zip,
         options,
         slides,
+        &plans,
         &chart_info.slide_start_indices,
         template.as_ref(),
     )?;
 
     // 9. Notes relationships and master (lazy version)
     if has_notes {
-        write_notes_relationships_lazy(zip, options, slides)?;
-        write_notes_master(zip, options)?;
+        write_notes_relationships_lazy(zip, options, &plans)?;
+        write_notes_master(zip, options, template.as_ref())?;
     }
 
     // 10. Theme and layouts
     write_theme_and_layouts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 11. Document properties
-    let notes_count = (0..slide_count)
-        .filter(|i| {
-            slides
-                .slide_features(*i)
-                .map(|(notes, _)| notes)
-                .unwrap_or(false)
-        })
-        .count();
-    let slide_titles = collect_slide_titles_lazy(slides, slide_count);
+    let slide_titles = collect_slide_titles_lazy(&plans);
     write_document_properties(zip, options, title, slide_count, notes_count, &slide_titles)?;
 
     // 12. Images
-    write_images_lazy(zip, options, slides)?;
+    write_images(zip, options, &media_registry)?;
 
     // 13. Embedded font data parts
     if let Some(fonts) = embedded_fonts(settings.as_ref()) {
@@ -907,31 +1002,16 @@ fn write_package_files_lazy<W: Write + Seek>(
 fn write_content_types_lazy<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
-    slide_count: usize,
-    slides: &dyn LazySlideSource,
+    plans: &[LazySlidePlan],
     chart_info: &ChartInfo,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
+    media_registry: &MediaRegistry,
 ) -> Result<()> {
-    let notes_count = (0..slide_count)
-        .filter(|i| {
-            slides
-                .slide_features(*i)
-                .map(|(notes, _)| notes)
-                .unwrap_or(false)
-        })
-        .count();
-
-    let ink_count = (0..slide_count)
-        .filter(|i| {
-            slides
-                .generate_slide(*i)
-                .map(|s| s.ink_annotations.is_some())
-                .unwrap_or(false)
-        })
-        .count();
-
-    let media_registry = build_media_registry_lazy(slides);
+    let slide_count = plans.len();
+    let notes_count = plans.iter().filter(|plan| plan.has_notes).count();
+    let ink_count = plans.iter().filter(|plan| plan.has_ink).count();
     let media_exts = media_registry.extensions();
 
     let mut content_types = content_types_opening(&media_exts, chart_info.total_charts);
@@ -943,18 +1023,10 @@ fn write_content_types_lazy<W: Write + Seek>(
     }
 
     if notes_count > 0 {
-        let mut notes_index = 0usize;
-        for i in 0..slide_count {
-            if slides
-                .slide_features(i)
-                .map(|(notes, _)| notes)
-                .unwrap_or(false)
-            {
-                notes_index += 1;
-                content_types.push_str(&format!(
-                    "\n<Override PartName=\"/ppt/notesSlides/notesSlide{notes_index}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml\"/>"
-                ));
-            }
+        for notes_index in 1..=notes_count {
+            content_types.push_str(&format!(
+                "\n<Override PartName=\"/ppt/notesSlides/notesSlide{notes_index}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml\"/>"
+            ));
         }
         content_types.push_str("\n<Override PartName=\"/ppt/notesMasters/notesMaster1.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml\"/>");
         content_types.push_str("\n<Override PartName=\"/ppt/theme/theme2.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.theme+xml\"/>");
@@ -998,6 +1070,10 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
+    if let Some(tmpl) = template {
+        content_types = tmpl.declare_content_types(&content_types);
+    }
+
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
@@ -1029,22 +1105,20 @@ fn write_slide_packages_lazy<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     slides: &dyn LazySlideSource,
+    plans: &[LazySlidePlan],
     slide_chart_start_indices: &[usize],
     template: Option<&PptxTemplate>,
 ) -> Result<()> {
-    let media_registry = build_media_registry_lazy(slides);
     let mut slide_path = String::with_capacity(48);
     let mut rels_path = String::with_capacity(56);
     let mut notes_part_num = 0usize;
     let mut ink_part_num = 0usize;
 
     for (i, &start_chart_idx) in slide_chart_start_indices.iter().enumerate() {
-        let Some(slide) = slides.generate_slide(i) else {
-            continue;
-        };
+        let slide = generate_planned_slide(slides, i, &plans[i])?;
         let slide_num = i + 1;
         let layout_number = resolve_layout_number(&slide, template);
-        let images = slide_image_rel_targets(&slide, &media_registry);
+        let images: Vec<(usize, String)> = plans[i].images.iter().flatten().cloned().collect();
         let image_count = images.len();
 
         let start_rid = slide_content_rel_start(slide.notes.is_some(), image_count);
@@ -1126,15 +1200,11 @@ fn write_slide_packages_lazy<W: Write + Seek>(
 fn write_notes_relationships_lazy<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
-    slides: &dyn LazySlideSource,
+    plans: &[LazySlidePlan],
 ) -> Result<()> {
     let mut notes_part_num = 0usize;
-    for i in 0..slides.slide_count() {
-        if slides
-            .slide_features(i)
-            .map(|(notes, _)| notes)
-            .unwrap_or(false)
-        {
+    for (i, plan) in plans.iter().enumerate() {
+        if plan.has_notes {
             notes_part_num += 1;
             let slide_num = i + 1;
             let notes_rels = create_notes_rels_xml(slide_num);
@@ -1216,10 +1286,8 @@ fn write_slide_relationships_extended<W: Write + Seek>(
     slide_chart_start_indices: &[usize],
     slide_count: usize,
     template: Option<&PptxTemplate>,
+    media_registry: &MediaRegistry,
 ) -> Result<()> {
-    let media_registry = custom_slides
-        .map(build_media_registry)
-        .unwrap_or_default();
     let mut notes_part_num = 0usize;
 
     match custom_slides {
@@ -1229,7 +1297,7 @@ fn write_slide_relationships_extended<W: Write + Seek>(
             for (i, slide) in slides.iter().enumerate() {
                 let slide_num = i + 1;
                 let layout_number = resolve_layout_number(slide, template);
-                let images = slide_image_rel_targets(slide, &media_registry);
+                let images = slide_image_rel_targets(slide, media_registry);
                 let image_count = images.len();
                 let notes_part = if slide.notes.is_some() {
                     notes_part_num += 1;
@@ -1344,15 +1412,12 @@ fn write_embedded_font_parts<W: Write + Seek>(
 fn write_images<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
-    custom_slides: Option<&[SlideContent]>,
+    registry: &MediaRegistry,
 ) -> Result<()> {
-    if let Some(slides) = custom_slides {
-        let registry = build_media_registry(slides);
-        for (i, (bytes, ext)) in registry.files().iter().enumerate() {
-            let filename = format!("ppt/media/image{}.{}", i + 1, ext);
-            zip.start_file(filename, *options)?;
-            zip.write_all(bytes)?;
-        }
+    for (number, bytes, ext) in registry.numbered_files() {
+        let filename = format!("ppt/media/image{number}.{ext}");
+        zip.start_file(filename, *options)?;
+        zip.write_all(bytes)?;
     }
     Ok(())
 }
@@ -1377,21 +1442,6 @@ fn write_digital_signature_parts<W: Write + Seek>(
     Ok(())
 }
 
-/// Write image files from a lazy slide source.
-fn write_images_lazy<W: Write + Seek>(
-    zip: &mut ZipWriter<W>,
-    options: &FileOptions,
-    slides: &dyn LazySlideSource,
-) -> Result<()> {
-    let registry = build_media_registry_lazy(slides);
-    for (i, (bytes, ext)) in registry.files().iter().enumerate() {
-        let filename = format!("ppt/media/image{}.{}", i + 1, ext);
-        zip.start_file(filename, *options)?;
-        zip.write_all(bytes)?;
-    }
-    Ok(())
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/generator/media_registry.rs b/src/generator/media_registry.rs
index f6de2c6..fb8aa0a 100644
--- a/src/generator/media_registry.rs
+++ b/src/generator/media_registry.rs
@@ -4,22 +4,36 @@
 #[derive(Default)]
 pub struct MediaRegistry {
     entries: Vec<(Vec<u8>, String)>,
+    first: usize,
 }
 
 impl MediaRegistry {
+    /// Registry that numbers its images after the first `taken` ones.
+    pub fn after(taken: usize) -> Self {
+        MediaRegistry { entries: Vec::new(), first: taken }
+    }
+
+    /// Numbered images, as `(number, bytes, extension)`.
+    pub fn numbered_files(&self) -> impl Iterator<Item = (usize, &[u8], &str)> {
+        self.entries
+            .iter()
+            .enumerate()
+            .map(|(i, (bytes, ext))| (self.first + i + 1, bytes.as_slice(), ext.as_str()))
+    }
+
     pub fn image_number(&mut self, bytes: &[u8], ext: &str) -> usize {
         if let Some(num) = self.lookup_number(bytes, ext) {
             return num;
         }
         self.entries.push((bytes.to_vec(), ext.to_string()));
-        self.entries.len()
+        self.first + self.entries.len()
     }
 
     pub fn lookup_number(&self, bytes: &[u8], ext: &str) -> Option<usize> {
         self.entries
             .iter()
             .position(|(existing, existing_ext)| existing.as_slice() == bytes && existing_ext == ext)
-            .map(|i| i + 1)
+            .map(|i| self.first + i + 1)
     }
 
     pub fn files(&self) -> &[(Vec<u8>, String)] {
diff --git a/src/generator/memory_profile.rs b/src/generator/memory_profile.rs
index f2694c3..696cd83 100644
--- a/src/generator/memory_profile.rs
+++ b/src/generator/memory_profile.rs
@@ -2,6 +2,7 @@
 
 use std::time::{Duration, Instant};
 
+use super::images::ImageSource;
 use super::slide_content::SlideContent;
 use super::{create_pptx_lazy_to_writer, create_pptx_with_content, LazySlideSource};
 use std::io::Cursor;
@@ -44,7 +45,8 @@ pub fn estimate_output_capacity(slide_count: usize, slides: Option<&[SlideConten
         for slide in slides {
             cap += slide.charts.len().saturating_mul(8_192);
             for image in &slide.images {
-                if let Some(bytes) = image.get_bytes() {
+                // Only what is already in memory: files and URLs are read once, when building
+                if let Some(ImageSource::Bytes(bytes)) = &image.source {
                     cap += bytes.len();
                 }
             }
diff --git a/src/generator/template.rs b/src/generator/template.rs
index 47b5644..4a1b904 100644
--- a/src/generator/template.rs
+++ b/src/generator/template.rs
@@ -1,15 +1,38 @@
 //! Load theme / master / layout parts from an existing PPTX template.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::path::Path;
 
+use super::package_xml::SLIDE_MASTER_ID;
+use crate::core::escape_xml;
 use crate::exc::{PptxError, Result};
-use crate::opc::Package;
+use crate::opc::{xml_edit, Package};
+
+const TABLE_STYLES: &str = "ppt/tableStyles.xml";
+
+
+/// Directories whose parts a generated deck numbers itself.
+const GENERATED_DIRS: [&str; 8] = [
+    "ppt/slides/",
+    "ppt/notesSlides/",
+    "ppt/notesMasters/",
+    "ppt/handoutMasters/",
+    "ppt/charts/",
+    "ppt/embeddings/",
+    "ppt/ink/",
+    "ppt/fonts/",
+];
 
 /// Theme + master + layout parts cloned from an existing `.pptx` file.
 #[derive(Clone, Debug, Default)]
 pub struct PptxTemplate {
     parts: HashMap<String, Vec<u8>>,
+    /// Declared content type of every carried part, in path order
+    content_types: BTreeMap<String, String>,
+    /// Slide master parts with their ids, in template order
+    masters: Vec<(String, String)>,
+    /// Theme of the first slide master
+    theme: Option<String>,
     layout_count: usize,
 }
 
@@ -20,36 +43,68 @@ impl PptxTemplate {
         Self::from_package(&pkg)
     }
 
-    /// Extract template parts from an opened package.
+    /// Extract template parts from an opened package: the slide masters and
+    /// everything they lead to (layouts, themes, media), and the table styles.
     pub fn from_package(pkg: &Package) -> Result<Self> {
+        let masters = masters(pkg);
+        if masters.is_empty() {
+            return Err(PptxError::InvalidValue(
+                "template missing ppt/slideMasters/".into(),
+            ));
+        }
+
         let mut parts = HashMap::new();
-        for path in pkg.part_paths() {
-            if (path.starts_with("ppt/theme/")
-                || path.starts_with("ppt/slideMasters/")
-                || path.starts_with("ppt/slideLayouts/")
-                || path == "ppt/tableStyles.xml")
-                && let Some(data) = pkg.get_part(path) {
-                    parts.insert(path.to_string(), data.to_vec());
+        let mut theme = None;
+        let mut pending: Vec<String> = masters.iter().rev().map(|(path, _)| path.clone()).collect();
+        while let Some(path) = pending.pop() {
+            if parts.contains_key(&path) {
+                continue;
+            }
+            let data = pkg.get_part(&path).ok_or_else(|| {
+                PptxError::InvalidValue(format!("template part {path} is missing"))
+            })?;
+            if GENERATED_DIRS.iter().any(|dir| path.starts_with(dir)) {
+                return Err(PptxError::InvalidValue(format!(
+                    "template part {path} cannot be carried over"
+                )));
+            }
+            parts.insert(path.clone(), data.to_vec());
+
+            let rels_path = rels_path(&path);
+            let Some(rels) = pkg.get_part(&rels_path) else {
+                continue;
+            };
+            parts.insert(rels_path.clone(), rels.to_vec());
+            let text = std::str::from_utf8(rels).map_err(|_| {
+                PptxError::InvalidValue(format!("template part {rels_path} is not UTF-8"))
+            })?;
+            for relationship in xml_edit::elements(text, "Relationship") {
+                let tag = &text[relationship.tag];
+                let Some(target) = xml_edit::internal_target(&rels_path, tag) else {
+                    continue;
+                };
+                if theme.is_none()
+                    && path == masters[0].0
+                    && xml_edit::attribute(tag, "Type").is_some_and(|t| t.ends_with("/theme"))
+                {
+                    theme = Some(target.clone());
                 }
+                pending.push(target);
+            }
+        }
+        if let Some(data) = pkg.get_part(TABLE_STYLES) {
+            parts.insert(TABLE_STYLES.to_string(), data.to_vec());
         }
 
-        if !parts.keys().any(|p| p.starts_with("ppt/slideMasters/")) {
+        let content_types = content_types(pkg, &parts)?;
+        let layout_count = parts.keys().filter(|p| layout_number(p).is_some()).count();
+        if layout_count == 0 {
             return Err(PptxError::InvalidValue(
-                "template missing ppt/slideMasters/".into(),
+                "template missing ppt/slideLayouts/".into(),
             ));
         }
 
-        let layout_count = parts
-            .keys()
-            .filter(|p| {
-                p.starts_with("ppt/slideLayouts/slideLayout")
-                    && p.ends_with(".xml")
-                    && !p.contains("_rels")
-            })
-            .count()
-            .max(1);
-
-        Ok(PptxTemplate { parts, layout_count })
+        Ok(PptxTemplate { parts, content_types, masters, theme, layout_count })
     }
 
     pub fn layout_count(&self) -> usize {
@@ -68,10 +123,226 @@ impl PptxTemplate {
     /// Resolve layout index for a slide, capped to layouts available in the template.
     pub fn resolve_layout_number(&self, requested: usize) -> usize {
         if self.has_layout(requested) {
-            requested
-        } else {
-            1
+            return requested;
+        }
+        self.parts
+            .keys()
+            .filter_map(|path| layout_number(path))
+            .min()
+            .unwrap_or(1)
+    }
+
+    /// Carried parts in path order, without the table styles.
+    pub(crate) fn sorted_parts(&self) -> Vec<(&str, &[u8])> {
+        let mut parts: Vec<(&str, &[u8])> = self
+            .parts
+            .iter()
+            .filter(|(path, _)| *path != TABLE_STYLES)
+            .map(|(path, data)| (path.as_str(), data.as_slice()))
+            .collect();
+        parts.sort_unstable();
+        parts
+    }
+
+    /// Table styles of the template, if it has any.
+    pub(crate) fn table_styles(&self) -> Option<&[u8]> {
+        self.parts.get(TABLE_STYLES).map(Vec::as_slice)
+    }
+
+    /// Path of the theme used by the first slide master.
+    pub(crate) fn theme_path(&self) -> Option<&str> {
+        self.theme.as_deref()
+    }
+
+    /// Highest `imageN` number among the carried media parts.
+    pub(crate) fn last_image_number(&self) -> usize {
+        self.parts
+            .keys()
+            .filter_map(|path| {
+                let name = path.strip_prefix("ppt/media/image")?;
+                name.split('.').next()?.parse().ok()
+            })
+            .max()
+            .unwrap_or(0)
+    }
+
+    /// Two theme names the template leaves free (notes master, handout master).
+    fn free_themes(&self) -> [String; 2] {
+        let mut free = (2..)
+            .map(|n| format!("theme{n}.xml"))
+            .filter(|name| !self.parts.contains_key(&format!("ppt/theme/{name}")));
+        [free.next().unwrap_or_default(), free.next().unwrap_or_default()]
+    }
+
+    /// Rename the generated notes and handout themes to names the template leaves free.
+    pub(crate) fn rename_themes(&self, text: &str) -> String {
+        let [notes, handout] = self.free_themes();
+        text.replace("theme/theme3.xml", &format!("theme/{handout}"))
+            .replace("theme/theme2.xml", &format!("theme/{notes}"))
+    }
+
+    /// Declare the carried parts in a generated `[Content_Types].xml`.
+    pub(crate) fn declare_content_types(&self, xml: &str) -> String {
+        let generated = xml_edit::remove_elements(xml, "Override", |tag| {
+            xml_edit::attribute(tag, "PartName").is_some_and(|name| {
+                name.starts_with("/ppt/slideLayouts/")
+                    || name.starts_with("/ppt/slideMasters/")
+                    || name == "/ppt/theme/theme1.xml"
+            })
+        });
+        let mut generated = self.rename_themes(&generated);
+        let overrides: String = self
+            .content_types
+            .iter()
+            .map(|(path, content_type)| {
+                format!(
+                    r#"<Override PartName="/{}" ContentType="{}"/>"#,
+                    escape_xml(path),
+                    escape_xml(content_type)
+                )
+            })
+            .collect();
+        if let Some(end) = generated.rfind("</Types>") {
+            generated.insert_str(end, &overrides);
         }
+        generated
+    }
+
+    /// Lead the generated presentation relationships to the template's masters and theme.
+    pub(crate) fn link_relationships(&self, xml: &str) -> String {
+        let mut xml = xml.replace(
+            "Target=\"slideMasters/slideMaster1.xml\"",
+            &format!("Target=\"/{}\"", escape_xml(&self.masters[0].0)),
+        );
+        let theme = xml_edit::elements(&xml, "Relationship").into_iter().find(|relationship| {
+            xml_edit::attribute(&xml[relationship.tag.clone()], "Target").as_deref()
+                == Some("theme/theme1.xml")
+        });
+        match (&self.theme, theme) {
+            (Some(path), _) => {
+                xml = xml.replace(
+                    "Target=\"theme/theme1.xml\"",
+                    &format!("Target=\"/{}\"", escape_xml(path)),
+                );
+            }
+            (None, Some(relationship)) => xml.replace_range(relationship.range, ""),
+            (None, None) => {}
+        }
+        let others: String = self
+            .masters
+            .iter()
+            .enumerate()
+            .skip(1)
+            .map(|(i, (path, _))| {
+                format!(
+                    r#"<Relationship Id="rIdMaster{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideMaster" Target="/{}"/>"#,
+                    i + 1,
+                    escape_xml(path)
+                )
+            })
+            .collect();
+        if let Some(end) = xml.rfind("</Relationships>") {
+            xml.insert_str(end, &others);
+        }
+        xml
+    }
+
+    /// List the template's masters in the generated `presentation.xml`.
+    pub(crate) fn list_masters(&self, xml: &str) -> String {
+        let list: String = self
+            .masters
+            .iter()
+            .enumerate()
+            .map(|(i, (_, id))| {
+                let rel_id = if i == 0 { "rId1".to_string() } else { format!("rIdMaster{}", i + 1) };
+                format!(r#"<p:sldMasterId id="{}" r:id="{rel_id}"/>"#, escape_xml(id))
+            })
+            .collect();
+        let mut xml = xml.to_string();
+        if let Some(element) = xml_edit::elements(&xml, "sldMasterId").into_iter().next() {
+            xml.replace_range(element.range, &list);
+        }
+        xml
+    }
+}
+
+/// Slide masters of a package with their ids, in presentation order.
+fn masters(pkg: &Package) -> Vec<(String, String)> {
+    let presentation = pkg.get_part_string("ppt/presentation.xml").unwrap_or_default();
+    let rels_path = "ppt/_rels/presentation.xml.rels";
+    let rels = pkg.get_part_string(rels_path).unwrap_or_default();
+    let targets: HashMap<String, String> = xml_edit::elements(&rels, "Relationship")
+        .into_iter()
+        .filter_map(|relationship| {
+            let tag = &rels[relationship.tag];
+            Some((
+                xml_edit::attribute(tag, "Id")?,
+                xml_edit::internal_target(rels_path, tag)?,
+            ))
+        })
+        .collect();
+    xml_edit::elements(&presentation, "sldMasterId")
+        .into_iter()
+        .filter_map(|element| {
+            let tag = &presentation[element.tag];
+            let target = targets.get(&xml_edit::attribute(tag, "r:id")?)?;
+            let id = xml_edit::attribute(tag, "id").unwrap_or_else(|| SLIDE_MASTER_ID.to_string());
+            Some((target.clone(), id))
+        })
+        .collect()
+}
+
+/// Content types of the given parts (relationship parts have a default of their own).
+fn content_types(
+    pkg: &Package,
+    parts: &HashMap<String, Vec<u8>>,
+) -> Result<BTreeMap<String, String>> {
+    let xml = pkg.get_part_string("[Content_Types].xml").unwrap_or_default();
+    let declared = |element: &str, key: &str| -> HashMap<String, String> {
+        xml_edit::elements(&xml, element)
+            .into_iter()
+            .filter_map(|entry| {
+                let tag = &xml[entry.tag];
+                Some((
+                    xml_edit::attribute(tag, key)?.to_lowercase(),
+                    xml_edit::attribute(tag, "ContentType")?,
+                ))
+            })
+            .collect()
+    };
+    let defaults = declared("Default", "Extension");
+    let overrides = declared("Override", "PartName");
+
+    let mut types = BTreeMap::new();
+    for path in parts.keys() {
+        if path.ends_with(".rels") || path == TABLE_STYLES {
+            continue;
+        }
+        let extension = path.rsplit('.').next().unwrap_or_default().to_lowercase();
+        let content_type = overrides
+            .get(&format!("/{path}").to_lowercase())
+            .or_else(|| defaults.get(&extension))
+            .ok_or_else(|| {
+                PptxError::InvalidValue(format!("template part {path} has no content type"))
+            })?;
+        types.insert(path.clone(), content_type.clone());
+    }
+    Ok(types)
+}
+
+/// Number of a `slideLayoutN.xml` part.
+fn layout_number(path: &str) -> Option<usize> {
+    path.strip_prefix("ppt/slideLayouts/slideLayout")?
+        .strip_suffix(".xml")?
+        .parse()
+        .ok()
+}
+
+/// Path of the relationship part of a part.
+fn rels_path(path: &str) -> String {
+    match path.rsplit_once('/') {
+        Some((dir, file)) => format!("{dir}/_rels/{file}.rels"),
+        None => format!("_rels/{path}.rels"),
     }
 }
 
-- 
2.43.0


From edc5cfa0f7bd9c0da73075d306d0bf99bcf2173c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:03 +0000
Subject: [PATCH 08/33] fix: a failed package write stays failed instead of
 panicking in the ZIP encoder

---
 src/generator/builder.rs | 14 +++++------
 src/opc/io.rs            | 53 ++++++++++++++++++++++++++++------------
 src/opc/package.rs       |  2 +-
 3 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 8dfdc25..0e3e7ee 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -6,7 +6,7 @@ use zip::write::FileOptions;
 use zip::ZipWriter;
 use crate::exc::{PptxError, Result};
 use crate::core::append_usize;
-use crate::opc::io::RetryWriter;
+use crate::opc::io::ArchiveWriter;
 use super::slide_content::SlideContent;
 use super::memory_profile::estimate_output_capacity;
 use super::package_cache::{self, print_affects_theme_parts};
@@ -293,12 +293,12 @@ pub fn create_pptx_to_writer<W: Write + Seek>(
     title: &str,
     slides: usize,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(RetryWriter(writer));
+    let mut zip = ZipWriter::new(ArchiveWriter::new(writer));
     let options = FileOptions::default();
 
     write_package_files(&mut zip, &options, title, slides, None, None)?;
 
-    Ok(zip.finish()?.0)
+    Ok(zip.finish()?.into_inner())
 }
 
 /// Create a PPTX file with custom content and write it directly to a writer (streaming API).
@@ -323,12 +323,12 @@ pub fn create_pptx_with_content_to_writer<W: Write + Seek>(
     slides: &[SlideContent],
     settings: Option<PresentationSettings>,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(RetryWriter(writer));
+    let mut zip = ZipWriter::new(ArchiveWriter::new(writer));
     let options = FileOptions::default();
 
     write_package_files(&mut zip, &options, title, slides.len(), Some(slides), settings)?;
 
-    Ok(zip.finish()?.0)
+    Ok(zip.finish()?.into_inner())
 }
 
 /// Lazy slide source - allows generating slides on-demand instead of all at once.
@@ -431,12 +431,12 @@ pub fn create_pptx_lazy_to_writer<W: Write + Seek>(
     slides: Box<dyn LazySlideSource>,
     settings: Option<PresentationSettings>,
 ) -> Result<W> {
-    let mut zip = ZipWriter::new(RetryWriter(writer));
+    let mut zip = ZipWriter::new(ArchiveWriter::new(writer));
     let options = FileOptions::default();
 
     write_package_files_lazy(&mut zip, &options, title, slides.as_ref(), settings)?;
 
-    Ok(zip.finish()?.0)
+    Ok(zip.finish()?.into_inner())
 }
 
 /// Chart metadata for slides
diff --git a/src/opc/io.rs b/src/opc/io.rs
index 435fc72..cc3520d 100644
--- a/src/opc/io.rs
+++ b/src/opc/io.rs
@@ -4,35 +4,58 @@ use std::fs::{self, File, OpenOptions};
 use std::io::{self, Seek, SeekFrom, Write};
 use std::path::{Path, PathBuf};
 
-/// Writer adapter that retries interrupted calls.
+/// Writer adapter that retries interrupted calls and stays failed.
 ///
 /// The ZIP and deflate encoders pass `ErrorKind::Interrupted` through to their
-/// caller, which cannot resume an archive that is half written.
-pub(crate) struct RetryWriter<W>(pub(crate) W);
+/// caller, which cannot resume an archive that is half written. After any other
+/// error the archive is lost, and the encoder must not go on writing to it when
+/// it is dropped.
+pub(crate) struct ArchiveWriter<W> {
+    inner: W,
+    failed: bool,
+}
 
-impl<W: Write> Write for RetryWriter<W> {
-    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+impl<W> ArchiveWriter<W> {
+    pub(crate) fn new(inner: W) -> Self {
+        ArchiveWriter { inner, failed: false }
+    }
+
+    pub(crate) fn into_inner(self) -> W {
+        self.inner
+    }
+
+    fn run<T>(&mut self, mut call: impl FnMut(&mut W) -> io::Result<T>) -> io::Result<T> {
+        if self.failed {
+            return Err(io::Error::other("an earlier write failed"));
+        }
         loop {
-            match self.0.write(buf) {
+            match call(&mut self.inner) {
                 Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
-                other => return other,
+                result => {
+                    self.failed = result.is_err();
+                    return result;
+                }
             }
         }
     }
+}
+
+impl<W: Write> Write for ArchiveWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        self.run(|w| match w.write(buf) {
+            Ok(0) if !buf.is_empty() => Err(io::ErrorKind::WriteZero.into()),
+            result => result,
+        })
+    }
 
     fn flush(&mut self) -> io::Result<()> {
-        loop {
-            match self.0.flush() {
-                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
-                other => return other,
-            }
-        }
+        self.run(|w| w.flush())
     }
 }
 
-impl<W: Seek> Seek for RetryWriter<W> {
+impl<W: Seek> Seek for ArchiveWriter<W> {
     fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
-        self.0.seek(pos)
+        self.run(|w| w.seek(pos))
     }
 }
 
diff --git a/src/opc/package.rs b/src/opc/package.rs
index 5f8b656..7236da2 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -55,7 +55,7 @@ impl Package {
 
     /// Save the package to a writer
     pub fn save_writer<W: std::io::Write + std::io::Seek>(&self, writer: W) -> Result<()> {
-        let mut archive = zip::ZipWriter::new(super::io::RetryWriter(writer));
+        let mut archive = zip::ZipWriter::new(super::io::ArchiveWriter::new(writer));
 
         for (path, content) in &self.parts {
             let options = zip::write::FileOptions::default();
-- 
2.43.0


From 9dc0d72c520e4fc8dd671d5718e9689bb8ec6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 09/33] fix: reject a truncated package that ends inside an
 embedded archive

---
 src/opc/package.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opc/package.rs b/src/opc/package.rs
index 7236da2..36544fc 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -1,6 +1,6 @@
 //! OPC Package handling
 
-use crate::exc::Result;
+use crate::exc::{PptxError, Result};
 use std::collections::HashMap;
 use std::io::Read;
 use std::path::Path;
@@ -29,6 +29,12 @@ impl Package {
     /// Open a package from a reader
     pub fn open_reader<R: Read + std::io::Seek>(reader: R) -> Result<Self> {
         let mut archive = zip::ZipArchive::new(reader)?;
+        if archive.offset() != 0 {
+            // A truncated package can end inside a workbook it embeds
+            return Err(PptxError::InvalidState(
+                "not a package: the archive starts inside the file".to_string(),
+            ));
+        }
 
         let mut parts = HashMap::new();
 
-- 
2.43.0


From 11980c5aa300fce8199c8b9f3c8b2a991b34f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:04 +0000
Subject: [PATCH 10/33] fix: package validation missed unreadable parts,
 malformed XML, duplicate ids and foreign attribute order

---
 src/core/package_validation/context.rs | 178 ++++++++---------
 src/core/package_validation/rules.rs   | 256 ++++++++++++-------------
 src/core/validation.rs                 |  25 +--
 3 files changed, 203 insertions(+), 256 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index b2e21f0..1d39de5 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -1,10 +1,12 @@
 //! Read-only view of a PPTX ZIP archive for validation rules.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::io::{Read, Seek};
 
 use zip::ZipArchive;
 
+use crate::opc::xml_edit::{attribute, elements};
+
 use super::rels::{rels_source_dir, resolve_rel_target};
 use super::report::{PackageValidationIssue, ValidationCategory};
 
@@ -18,29 +20,69 @@ pub struct Relationship {
     pub target_mode: String,
 }
 
-/// Cached package contents used by validation rules.
+/// Package contents used by validation rules, read once.
 pub struct PackageContext {
-    pub names: std::collections::HashSet<String>,
-    rels_by_path: HashMap<String, Vec<Relationship>>,
-    part_cache: HashMap<String, String>,
+    pub names: BTreeSet<String>,
+    /// Problems met while reading the archive
+    pub read_issues: Vec<PackageValidationIssue>,
+    rels_by_path: BTreeMap<String, Vec<Relationship>>,
+    parts: BTreeMap<String, Vec<u8>>,
 }
 
 impl PackageContext {
     pub fn from_archive<R: Read + Seek>(archive: &mut ZipArchive<R>) -> Self {
-        let mut names = std::collections::HashSet::new();
+        let mut ctx = Self {
+            names: BTreeSet::new(),
+            read_issues: Vec::new(),
+            rels_by_path: BTreeMap::new(),
+            parts: BTreeMap::new(),
+        };
+
+        if archive.offset() != 0 {
+            // A truncated package can end inside a workbook it embeds
+            ctx.read_issues.push(PackageValidationIssue::error(
+                ValidationCategory::Xml,
+                "The archive does not start at the beginning of the file",
+                None,
+            ));
+        }
+
         for i in 0..archive.len() {
-            if let Ok(file) = archive.by_index(i)
-                && !file.is_dir() {
-                    names.insert(file.name().to_string());
+            let (name, content) = match archive.by_index(i) {
+                Ok(file) if file.is_dir() => continue,
+                Ok(mut file) => {
+                    let mut content = Vec::new();
+                    let read = file.read_to_end(&mut content);
+                    (file.name().to_string(), read.map(|_| content).map_err(|e| e.to_string()))
                 }
+                Err(e) => {
+                    ctx.read_issues.push(PackageValidationIssue::error(
+                        ValidationCategory::MissingPart,
+                        format!("Cannot read entry {i} of the archive: {e}"),
+                        None,
+                    ));
+                    continue;
+                }
+            };
+            if !ctx.names.insert(name.clone()) {
+                ctx.read_issues.push(PackageValidationIssue::error(
+                    ValidationCategory::MissingPart,
+                    format!("Part {name} is stored more than once"),
+                    Some(&name),
+                ));
+            }
+            match content {
+                Ok(content) => {
+                    ctx.parts.insert(name, content);
+                }
+                Err(e) => ctx.read_issues.push(PackageValidationIssue::error(
+                    ValidationCategory::MissingPart,
+                    format!("Failed to read {name}: {e}"),
+                    Some(&name),
+                )),
+            }
         }
 
-        let mut ctx = Self {
-            names,
-            rels_by_path: HashMap::new(),
-            part_cache: HashMap::new(),
-        };
-
         let rels_paths: Vec<String> = ctx
             .names
             .iter()
@@ -49,9 +91,8 @@ impl PackageContext {
             .collect();
 
         for rels_path in rels_paths {
-            if let Ok(content) = ctx.read_part_from_archive(archive, &rels_path) {
-                let base = rels_source_dir(&rels_path);
-                let relationships = parse_relationships(&content, &base);
+            if let Some(content) = ctx.read_part(&rels_path) {
+                let relationships = parse_relationships(content, &rels_source_dir(&rels_path));
                 ctx.rels_by_path.insert(rels_path, relationships);
             }
         }
@@ -76,91 +117,32 @@ impl PackageContext {
             .map(|(path, rels)| (path.as_str(), rels.as_slice()))
     }
 
-    pub fn read_part<R: Read + Seek>(
-        &mut self,
-        archive: &mut ZipArchive<R>,
-        path: &str,
-    ) -> Option<String> {
-        if let Some(cached) = self.part_cache.get(path) {
-            return Some(cached.clone());
-        }
-        let content = self.read_part_from_archive(archive, path).ok()?;
-        self.part_cache.insert(path.to_string(), content.clone());
-        Some(content)
+    /// Content of a part, if it could be read
+    pub fn part_bytes(&self, path: &str) -> Option<&[u8]> {
+        self.parts.get(path).map(|v| v.as_slice())
     }
 
-    fn read_part_from_archive<R: Read + Seek>(
-        &self,
-        archive: &mut ZipArchive<R>,
-        path: &str,
-    ) -> Result<String, PackageValidationIssue> {
-        let mut file = archive.by_name(path).map_err(|_| {
-            PackageValidationIssue::error(
-                ValidationCategory::MissingPart,
-                format!("Cannot read part for validation: {path}"),
-                Some(path),
-            )
-        })?;
-        let mut content = String::new();
-        file.read_to_string(&mut content).map_err(|e| {
-            PackageValidationIssue::error(
-                ValidationCategory::Xml,
-                format!("Failed to read {path}: {e}"),
-                Some(path),
-            )
-        })?;
-        Ok(content)
+    /// Text of a part, if it could be read and is text
+    pub fn read_part(&self, path: &str) -> Option<&str> {
+        std::str::from_utf8(self.parts.get(path)?).ok()
     }
 }
 
 fn parse_relationships(rels_xml: &str, base_dir: &str) -> Vec<Relationship> {
     // base_dir is the directory of the relationship source part
-    let mut relationships = Vec::new();
-    let mut search_from = 0;
-
-    while let Some(id_start) = rels_xml[search_from..].find("Id=\"") {
-        let abs_id = search_from + id_start + 4;
-        let Some(id_end) = rels_xml[abs_id..].find('"') else {
-            break;
-        };
-        let id = rels_xml[abs_id..abs_id + id_end].to_string();
-
-        let target_needle = "Target=\"";
-        let after_id = abs_id + id_end;
-        let Some(target_start) = rels_xml[after_id..].find(target_needle) else {
-            search_from = after_id;
-            continue;
-        };
-        let abs_target = after_id + target_start + target_needle.len();
-        let Some(target_end) = rels_xml[abs_target..].find('"') else {
-            break;
-        };
-        let target = rels_xml[abs_target..abs_target + target_end].to_string();
-
-        // Scope the `TargetMode` lookup to the remainder of this element so the
-        // attribute of a later relationship is never mis-attributed.
-        let element_tail_end = rels_xml[abs_target + target_end..]
-            .find('>')
-            .map(|p| abs_target + target_end + p)
-            .unwrap_or(rels_xml.len());
-        let element_tail = &rels_xml[abs_target + target_end..element_tail_end];
-        let target_mode = if element_tail.contains("TargetMode=\"External\"") {
-            "External".to_string()
-        } else {
-            String::new()
-        };
-
-        let resolved = resolve_rel_target(base_dir, &target);
-
-        relationships.push(Relationship {
-            id,
-            target,
-            resolved,
-            target_mode,
-        });
-
-        search_from = element_tail_end;
-    }
-
-    relationships
+    elements(rels_xml, "Relationship")
+        .into_iter()
+        .map(|element| {
+            let tag = &rels_xml[element.tag];
+            let target = attribute(tag, "Target").unwrap_or_default();
+            let target_mode = attribute(tag, "TargetMode").unwrap_or_default();
+            let resolved = resolve_rel_target(base_dir, target.split('#').next().unwrap_or(""));
+            Relationship {
+                id: attribute(tag, "Id").unwrap_or_default(),
+                target,
+                resolved,
+                target_mode,
+            }
+        })
+        .collect()
 }
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index ff87f65..d6a71d3 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -7,6 +7,7 @@ use zip::ZipArchive;
 
 use crate::core::validation::validate_well_formed_xml;
 use crate::generator::package_xml::{first_slide_rel_id, slide_id_value};
+use crate::opc::xml_edit::{attribute, elements};
 
 use super::context::PackageContext;
 use super::report::{
@@ -34,18 +35,19 @@ pub fn validate_package<R: Read + Seek>(archive: &mut ZipArchive<R>) -> PackageV
     let mut ctx = PackageContext::from_archive(archive);
     let mut report = PackageValidationReport::default();
 
+    report.extend(std::mem::take(&mut ctx.read_issues));
     check_required_parts(&ctx, &mut report);
-    check_xml_parts(&mut ctx, archive, &mut report);
+    check_xml_parts(&ctx, &mut report);
     check_relationship_targets(&ctx, &mut report);
-    check_content_types(&mut ctx, archive, &mut report);
-    check_presentation_structure(&mut ctx, archive, &mut report);
-    check_slide_master(&mut ctx, archive, &mut report);
-    check_theme(&mut ctx, archive, &mut report);
-    check_chart_packages(&mut ctx, archive, &mut report);
-    check_slide_relationships(&mut ctx, archive, &mut report);
+    check_content_types(&ctx, &mut report);
+    check_presentation_structure(&ctx, &mut report);
+    check_slide_master(&ctx, &mut report);
+    check_theme(&ctx, &mut report);
+    check_chart_packages(&ctx, &mut report);
+    check_slide_relationships(&ctx, &mut report);
     check_notes_slides(&ctx, &mut report);
-    check_handout_package(&mut ctx, archive, &mut report);
-    check_notes_master(&mut ctx, archive, &mut report);
+    check_handout_package(&ctx, &mut report);
+    check_notes_master(&ctx, &mut report);
 
     report
 }
@@ -80,33 +82,39 @@ fn check_required_parts(ctx: &PackageContext, report: &mut PackageValidationRepo
     }
 }
 
-fn check_xml_parts<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
-    let xml_parts: Vec<String> = ctx
-        .names
-        .iter()
-        .filter(|n| n.ends_with(".xml") || n.ends_with(".rels"))
-        .cloned()
-        .collect();
-
-    for path in xml_parts {
-        if let Some(content) = ctx.read_part(archive, &path)
-            && let Err(e) = validate_well_formed_xml(&content) {
-                report.push(PackageValidationIssue::error(
-                    ValidationCategory::Xml,
-                    e.to_string(),
-                    Some(&path),
-                ));
-            }
+fn check_xml_parts(ctx: &PackageContext, report: &mut PackageValidationReport) {
+    for path in &ctx.names {
+        if !(path.ends_with(".xml") || path.ends_with(".rels")) {
+            continue;
+        }
+        let Some(bytes) = ctx.part_bytes(path) else {
+            continue; // reported when it could not be read
+        };
+        let problem = match std::str::from_utf8(bytes) {
+            Ok(content) => validate_well_formed_xml(content).err().map(|e| e.to_string()),
+            Err(e) => Some(format!("{path} is not UTF-8 text: {e}")),
+        };
+        if let Some(message) = problem {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::Xml,
+                message,
+                Some(path),
+            ));
+        }
     }
 }
 
 fn check_relationship_targets(ctx: &PackageContext, report: &mut PackageValidationReport) {
     for (rels_path, relationships) in ctx.relationship_parts() {
+        let mut ids: HashSet<&str> = HashSet::new();
         for rel in relationships {
+            if rel.id.is_empty() || !ids.insert(&rel.id) {
+                report.push(PackageValidationIssue::error(
+                    ValidationCategory::Relationship,
+                    format!("{rels_path} has a missing or duplicate Id=\"{}\"", rel.id),
+                    Some(rels_path),
+                ));
+            }
             // External relationships (e.g. hyperlinks to URLs) point outside the
             // package and therefore have no resolvable part to validate.
             if rel.target_mode == "External" {
@@ -126,26 +134,35 @@ fn check_relationship_targets(ctx: &PackageContext, report: &mut PackageValidati
     }
 }
 
-fn check_content_types<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
-    let Some(ct) = ctx.read_part(archive, "[Content_Types].xml") else {
+fn check_content_types(ctx: &PackageContext, report: &mut PackageValidationReport) {
+    let Some(ct) = ctx.read_part("[Content_Types].xml") else {
         return;
     };
 
+    let attributes = |element: &str, attr: &str| -> HashSet<String> {
+        elements(ct, element)
+            .into_iter()
+            .filter_map(|e| attribute(&ct[e.tag], attr))
+            .collect()
+    };
+    let overrides = attributes("Override", "PartName");
+    let defaults: HashSet<String> = attributes("Default", "Extension")
+        .into_iter()
+        .map(|ext| ext.to_ascii_lowercase())
+        .collect();
+
     for path in &ctx.names {
         if path.ends_with(".rels") || path == "[Content_Types].xml" {
             continue;
         }
-        let override_path = format!("/{path}");
-        if ct.contains(&override_path) {
+        if overrides.contains(&format!("/{path}")) {
             continue;
         }
-        let ext = path.rsplit('.').next().unwrap_or("");
-        let default_needle = format!("Extension=\"{ext}\"");
-        if ext.is_empty() || !ct.contains(&default_needle) {
+        let file = path.rsplit('/').next().unwrap_or(path);
+        let declared = file
+            .rsplit_once('.')
+            .is_some_and(|(_, ext)| defaults.contains(&ext.to_ascii_lowercase()));
+        if !declared {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::ContentType,
                 format!("Part {path} has no Override or Default in [Content_Types].xml"),
@@ -155,12 +172,8 @@ fn check_content_types<R: Read + Seek>(
     }
 }
 
-fn check_presentation_structure<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
-    let Some(pres) = ctx.read_part(archive, "ppt/presentation.xml") else {
+fn check_presentation_structure(ctx: &PackageContext, report: &mut PackageValidationReport) {
+    let Some(pres) = ctx.read_part("ppt/presentation.xml") else {
         return;
     };
     let pres_rels = ctx.relationships("ppt/_rels/presentation.xml.rels");
@@ -169,11 +182,13 @@ fn check_presentation_structure<R: Read + Seek>(
         .map(|r| (r.id.as_str(), r.resolved.as_str()))
         .collect();
 
-    let sld_id_count = pres.matches("<p:sldId ").count();
+    let slide_ids = attribute_values(pres, "sldId", "id");
+    let slide_rids = attribute_values(pres, "sldId", "r:id");
+    let sld_id_count = elements(pres, "sldId").len();
 
     if sld_id_count > 0 {
-        let first_id = format!("id=\"{}\"", slide_id_value(1));
-        if !pres.contains(&first_id) {
+        let first_id = slide_id_value(1).to_string();
+        if !slide_ids.contains(&first_id) {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::Presentation,
                 format!(
@@ -184,11 +199,10 @@ fn check_presentation_structure<R: Read + Seek>(
             ));
         }
 
-        let has_notes = pres.contains("<p:notesMasterIdLst>");
-        let has_handout = pres.contains("<p:handoutMasterIdLst>");
+        let has_notes = !elements(pres, "notesMasterIdLst").is_empty();
+        let has_handout = !elements(pres, "handoutMasterIdLst").is_empty();
         let expected_first_rid = first_slide_rel_id(has_notes, has_handout);
-        let first_rid = format!(r#"r:id="rId{expected_first_rid}""#);
-        if pres.contains("<p:sldIdLst>") && !pres.contains(&first_rid) {
+        if !slide_rids.contains(&format!("rId{expected_first_rid}")) {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::Presentation,
                 format!(
@@ -201,7 +215,20 @@ fn check_presentation_structure<R: Read + Seek>(
 
     validate_presentation_rel_order(pres_rels, report);
 
-    for sld_rid in extract_attr_values(&pres, "p:sldId", "r:id") {
+    for (label, values) in [("id", &slide_ids), ("r:id", &slide_rids)] {
+        let mut seen: HashSet<&str> = HashSet::new();
+        for value in values {
+            if !seen.insert(value) {
+                report.push(PackageValidationIssue::error(
+                    ValidationCategory::Presentation,
+                    format!("Slide {label}=\"{value}\" is used more than once"),
+                    Some("ppt/presentation.xml"),
+                ));
+            }
+        }
+    }
+
+    for sld_rid in slide_rids {
         let target = rel_by_id.get(sld_rid.as_str());
         match target {
             Some(t) if t.contains("/slides/slide") => {}
@@ -270,12 +297,8 @@ fn validate_presentation_rel_order(
         }
 }
 
-fn check_slide_master<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
-    let Some(master) = ctx.read_part(archive, "ppt/slideMasters/slideMaster1.xml") else {
+fn check_slide_master(ctx: &PackageContext, report: &mut PackageValidationReport) {
+    let Some(master) = ctx.read_part("ppt/slideMasters/slideMaster1.xml") else {
         return;
     };
 
@@ -287,10 +310,10 @@ fn check_slide_master<R: Read + Seek>(
         ));
     }
 
-    let Some(pres) = ctx.read_part(archive, "ppt/presentation.xml") else {
+    let Some(pres) = ctx.read_part("ppt/presentation.xml") else {
         return;
     };
-    check_master_id_uniqueness(&pres, &master, report);
+    check_master_id_uniqueness(pres, master, report);
 
     let master_rels = ctx.relationships("ppt/slideMasters/_rels/slideMaster1.xml.rels");
     let rel_by_id: HashMap<&str, &str> = master_rels
@@ -298,7 +321,7 @@ fn check_slide_master<R: Read + Seek>(
         .map(|r| (r.id.as_str(), r.resolved.as_str()))
         .collect();
 
-    for layout_rid in extract_attr_values(&master, "p:sldLayoutId", "r:id") {
+    for layout_rid in attribute_values(master, "sldLayoutId", "r:id") {
         let target = rel_by_id.get(layout_rid.as_str());
         match target {
             Some(t) if t.contains("slideLayout") => {}
@@ -318,7 +341,7 @@ fn check_master_id_uniqueness(
     master: &str,
     report: &mut PackageValidationReport,
 ) {
-    let layout_ids: HashSet<String> = extract_attr_values(master, "p:sldLayoutId", "id")
+    let layout_ids: HashSet<String> = attribute_values(master, "sldLayoutId", "id")
         .into_iter()
         .collect();
 
@@ -326,7 +349,7 @@ fn check_master_id_uniqueness(
         ("notesMasterId", "notes master"),
         ("handoutMasterId", "handout master"),
     ] {
-        for id in extract_attr_values(pres, tag, "id") {
+        for id in attribute_values(pres, tag, "id") {
             if layout_ids.contains(&id) {
                 report.push(PackageValidationIssue::error(
                     ValidationCategory::SlideMaster,
@@ -338,31 +361,23 @@ fn check_master_id_uniqueness(
     }
 }
 
-fn check_theme<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
-    let mut buf = Vec::new();
-    if let Ok(mut file) = archive.by_name("ppt/theme/theme1.xml")
-        && file.read_to_end(&mut buf).is_ok() && buf.len() < 7000 {
-            report.push(PackageValidationIssue::error(
-                ValidationCategory::Theme,
-                format!(
-                    "Theme part too small ({} bytes); PowerPoint expects full Office theme",
-                    buf.len()
-                ),
-                Some("ppt/theme/theme1.xml"),
-            ));
-        }
-    let _ = ctx;
+fn check_theme(ctx: &PackageContext, report: &mut PackageValidationReport) {
+    let Some(theme) = ctx.part_bytes("ppt/theme/theme1.xml") else {
+        return;
+    };
+    if theme.len() < 7000 {
+        report.push(PackageValidationIssue::error(
+            ValidationCategory::Theme,
+            format!(
+                "Theme part too small ({} bytes); PowerPoint expects full Office theme",
+                theme.len()
+            ),
+            Some("ppt/theme/theme1.xml"),
+        ));
+    }
 }
 
-fn check_chart_packages<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
+fn check_chart_packages(ctx: &PackageContext, report: &mut PackageValidationReport) {
     let chart_parts: Vec<String> = ctx
         .names
         .iter()
@@ -391,7 +406,7 @@ fn check_chart_packages<R: Read + Seek>(
             ));
         }
 
-        if let Some(chart_xml) = ctx.read_part(archive, &chart_path)
+        if let Some(chart_xml) = ctx.read_part(&chart_path)
             && !chart_xml.contains("<c:externalData") {
                 report.push(PackageValidationIssue::error(
                     ValidationCategory::Chart,
@@ -414,11 +429,7 @@ fn check_chart_packages<R: Read + Seek>(
     }
 }
 
-fn check_slide_relationships<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
+fn check_slide_relationships(ctx: &PackageContext, report: &mut PackageValidationReport) {
     let slide_paths: Vec<String> = ctx
         .names
         .iter()
@@ -434,11 +445,11 @@ fn check_slide_relationships<R: Read + Seek>(
             .map(|r| (r.id.clone(), (r.resolved.clone(), r.target_mode.clone())))
             .collect();
 
-        let Some(slide_xml) = ctx.read_part(archive, &slide_path) else {
+        let Some(slide_xml) = ctx.read_part(&slide_path) else {
             continue;
         };
 
-        for rid in extract_rel_reference_ids(&slide_xml) {
+        for rid in extract_rel_reference_ids(slide_xml) {
             let Some((target, target_mode)) = rel_map.get(&rid) else {
                 report.push(PackageValidationIssue::error(
                     ValidationCategory::Slide,
@@ -461,7 +472,7 @@ fn check_slide_relationships<R: Read + Seek>(
         }
 
         let mut shape_ids: HashSet<String> = HashSet::new();
-        for id in extract_attr_values(&slide_xml, "p:cNvPr", "id") {
+        for id in attribute_values(slide_xml, "cNvPr", "id") {
             if !shape_ids.insert(id.clone()) {
                 report.push(PackageValidationIssue::error(
                     ValidationCategory::Slide,
@@ -473,16 +484,12 @@ fn check_slide_relationships<R: Read + Seek>(
     }
 }
 
-fn check_handout_package<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
+fn check_handout_package(ctx: &PackageContext, report: &mut PackageValidationReport) {
     if !ctx.has_part("ppt/handoutMasters/handoutMaster1.xml") {
         return;
     }
 
-    if let Some(pres_props) = ctx.read_part(archive, "ppt/presProps.xml")
+    if let Some(pres_props) = ctx.read_part("ppt/presProps.xml")
         && pres_props.contains("<p:prnPr") {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::Presentation,
@@ -503,7 +510,7 @@ fn check_handout_package<R: Read + Seek>(
         ));
     }
 
-    if let Some(handout) = ctx.read_part(archive, "ppt/handoutMasters/handoutMaster1.xml")
+    if let Some(handout) = ctx.read_part("ppt/handoutMasters/handoutMaster1.xml")
         && !handout.contains("<p:bg>") {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::SlideMaster,
@@ -513,11 +520,7 @@ fn check_handout_package<R: Read + Seek>(
         }
 }
 
-fn check_notes_master<R: Read + Seek>(
-    ctx: &mut PackageContext,
-    archive: &mut ZipArchive<R>,
-    report: &mut PackageValidationReport,
-) {
+fn check_notes_master(ctx: &PackageContext, report: &mut PackageValidationReport) {
     if !ctx.has_part("ppt/notesMasters/notesMaster1.xml") {
         return;
     }
@@ -534,7 +537,7 @@ fn check_notes_master<R: Read + Seek>(
         ));
     }
 
-    if let Some(notes) = ctx.read_part(archive, "ppt/notesMasters/notesMaster1.xml")
+    if let Some(notes) = ctx.read_part("ppt/notesMasters/notesMaster1.xml")
         && !notes.contains("<p:bg>") {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::SlideMaster,
@@ -570,31 +573,12 @@ fn is_slide_part(path: &str) -> bool {
         && !path.contains("/_rels/")
 }
 
-/// Extract `attr="value"` from elements like `<p:sldId id="256" r:id="rId6"/>`.
-fn extract_attr_values(xml: &str, element: &str, attr: &str) -> Vec<String> {
-    let mut values = Vec::new();
-    let needle = format!("<{element}");
-    let attr_needle = format!("{attr}=\"");
-    let mut search_from = 0;
-
-    while let Some(start) = xml[search_from..].find(&needle) {
-        let abs = search_from + start;
-        let end = xml[abs..]
-            .find("/>")
-            .or_else(|| xml[abs..].find("</"))
-            .map(|i| abs + i)
-            .unwrap_or(xml.len());
-        let slice = &xml[abs..end];
-        if let Some(attr_start) = slice.find(&attr_needle) {
-            let val_start = attr_start + attr_needle.len();
-            if let Some(val_end) = slice[val_start..].find('"') {
-                values.push(slice[val_start..val_start + val_end].to_string());
-            }
-        }
-        search_from = end;
-    }
-
-    values
+/// Values of an attribute of elements like `<p:sldId id="256" r:id="rId6"/>`.
+fn attribute_values(xml: &str, element: &str, attr: &str) -> Vec<String> {
+    elements(xml, element)
+        .into_iter()
+        .filter_map(|e| attribute(&xml[e.tag], attr))
+        .collect()
 }
 
 /// Collect `r:embed` and chart-style `r:id` references from slide XML.
diff --git a/src/core/validation.rs b/src/core/validation.rs
index d4b6a11..84fd9cb 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -98,34 +98,15 @@ pub fn validate_positive(value: u32, field: &str) -> Result<()> {
     Ok(())
 }
 
-/// Basic well-formedness check for XML / RELS content.
+/// Well-formedness check for XML / RELS content.
 pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
     let trimmed = xml.trim();
     if trimmed.is_empty() {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut string_char = '"';
-
-    for ch in trimmed.chars() {
-        match ch {
-            '"' | '\'' if in_tag && !in_string => {
-                in_string = true;
-                string_char = ch;
-            }
-            c if in_string && c == string_char => {
-                in_string = false;
-            }
-            '<' if !in_string => {
-                in_tag = true;
-            }
-            '>' if !in_string => {
-                in_tag = false;
-            }
-            _ => {}
-        }
+    for event in xml::reader::EventReader::from_str(trimmed) {
+        event.map_err(|e| PptxError::InvalidXml(e.to_string()))?;
     }
 
     Ok(())
-- 
2.43.0


From 0c1ab071dd55b5bff477dbe3e833e2ff482da118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 11/33] fix: converters run in a private temporary directory
 that is always removed, and their output is checked

---
 src/api.rs                 | 106 ++++++++++++++++--------------------
 src/export/image_export.rs | 108 ++++++++++++++++---------------------
 src/opc/io.rs              |  33 ++++++++++++
 3 files changed, 126 insertions(+), 121 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index cd8ddc4..a59cb43 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -4,11 +4,35 @@
 
 use crate::exc::{messages, PptxError, Result};
 use crate::export::html::export_to_html;
-use crate::generator::{create_pptx_with_settings, Image, PresentationSettings, PresentationTheme, SlideContent};
+use crate::generator::{create_pptx_with_settings, Image, ImageSource, PresentationSettings, PresentationTheme, SlideContent};
 use crate::import::import_pptx;
-use std::path::Path;
+use crate::opc::io::TempDir;
+use std::path::{Path, PathBuf};
 use std::process::Command;
 
+/// Pictures that pdftoppm made in `dir`, in page order
+///
+/// pdftoppm names them `page-1.png`, `page-2.png`, ... and pads the numbers
+/// with zeros in some versions, so they are sorted by number.
+fn sorted_pages(dir: &TempDir) -> Result<Vec<PathBuf>> {
+    let mut pages = Vec::new();
+    for path in dir.files_with_extension("png")? {
+        let number = path
+            .file_stem()
+            .and_then(|stem| stem.to_str())
+            .and_then(|stem| stem.rsplit('-').next()?.parse::<usize>().ok())
+            .ok_or_else(|| {
+                PptxError::Generic(format!("Unexpected file from pdftoppm: {}", path.display()))
+            })?;
+        pages.push((number, path));
+    }
+    pages.sort();
+    if pages.is_empty() || pages.iter().enumerate().any(|(i, page)| page.0 != i + 1) {
+        return Err(PptxError::Generic("pdftoppm did not draw every page".to_string()));
+    }
+    Ok(pages.into_iter().map(|(_, path)| path).collect())
+}
+
 /// Represents a PowerPoint presentation
 #[derive(Debug, Clone, Default)]
 pub struct Presentation {
@@ -179,10 +203,9 @@ impl Presentation {
             std::fs::create_dir_all(output_dir)?;
         }
 
-        // Create temp PDF using pure-Rust pdfrs engine
-        let temp_dir = std::env::temp_dir();
-        let temp_pdf_name = format!("ppt_rs_temp_{}.pdf", uuid::Uuid::new_v4());
-        let temp_pdf_path = temp_dir.join(&temp_pdf_name);
+        // Everything is made in a private directory, removed on return
+        let temp_dir = TempDir::new("ppt_rs_temp")?;
+        let temp_pdf_path = temp_dir.path().join("slides.pdf");
 
         // Convert to PDF first (no LibreOffice needed)
         let bytes = crate::export::slide_render::render_to_pdf_bytes(self)?;
@@ -190,7 +213,7 @@ impl Presentation {
 
         // Convert PDF to PNGs using pdftoppm
         // pdftoppm -png <pdf_file> <image_prefix>
-        let prefix = output_dir.join("slide");
+        let prefix = temp_dir.path().join("slide");
 
         let status = Command::new("pdftoppm")
             .arg("-png")
@@ -199,13 +222,14 @@ impl Presentation {
             .status()
             .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
 
-        // Cleanup temp PDF
-        let _ = std::fs::remove_file(&temp_pdf_path);
-
         if !status.success() {
             return Err(PptxError::Generic("pdftoppm conversion failed".to_string()));
         }
 
+        for image in sorted_pages(&temp_dir)? {
+            let target = output_dir.join(image.file_name().unwrap_or_default());
+            crate::opc::io::write_file(target, std::fs::read(&image)?)?;
+        }
         Ok(())
     }
 
@@ -221,12 +245,11 @@ impl Presentation {
             )));
         }
 
-        // Create temp dir for images
-        let temp_dir = std::env::temp_dir().join(format!("ppt_rs_import_{}", uuid::Uuid::new_v4()));
-        std::fs::create_dir_all(&temp_dir)?;
+        // Temp dir for images, removed on return
+        let temp_dir = TempDir::new("ppt_rs_import")?;
 
         // Convert PDF to PNGs
-        let prefix = temp_dir.join("page");
+        let prefix = temp_dir.path().join("page");
 
         let status = Command::new("pdftoppm")
             .arg("-png")
@@ -236,7 +259,6 @@ impl Presentation {
             .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
 
         if !status.success() {
-            let _ = std::fs::remove_dir_all(&temp_dir);
             return Err(PptxError::Generic("pdftoppm failed".to_string()));
         }
 
@@ -247,53 +269,17 @@ impl Presentation {
             pres = pres.title(&stem.to_string_lossy());
         }
 
-        // Read dir
-        let mut entries: Vec<_> = std::fs::read_dir(&temp_dir)?
-            .filter_map(|e| e.ok())
-            .collect();
-
-        // Sort by filename to ensure page order
-        // pdftoppm names files like page-1.png, page-2.png... page-10.png
-        // Default string sort might put page-10 before page-2
-        // We need to sort by length then by name, or rely on pdftoppm zero padding (it usually does -01 if needed, but safer to trust number)
-        // pdftoppm default is -1, -2... -10.
-        // So page-1.png, page-10.png, page-2.png.
-        // We need natural sort.
-        entries.sort_by_key(|e| {
-            let name = e.file_name().to_string_lossy().to_string();
-            // Extract number from end
-            // "page-1.png" -> 1
-            if let Some(start) = name.rfind('-')
-                && let Some(end) = name.rfind('.')
-                    && start < end
-                        && let Ok(num) = name[start + 1..end].parse::<u32>() {
-                            return num;
-                        }
-            0 // Fallback
-        });
-
-        for entry in entries {
-            let path = entry.path();
-            if path.extension().is_some_and(|e| e == "png") {
-                // Create slide with full screen image
-                let image = Image::from_path(&path).map_err(PptxError::Generic)?;
-
-                // Add image to slide
-                // Use a default layout?
-                // Just create a slide with this image
-                // We'll center it.
-                // Assuming standard 16:9 slide (10x5.625 inches) -> 9144000 x 5143500 EMU
-                // But we don't know image dimensions here easily without reading it.
-                // Image builder defaults to auto size?
-                // Let's just add it.
-
-                let mut slide = SlideContent::new("");
-                slide.images.push(image);
-                pres = pres.add_slide(slide);
-            }
+        for path in sorted_pages(&temp_dir)? {
+            // Create slide with full screen image; the file is temporary, so
+            // the image keeps its bytes
+            let mut image = Image::from_path(&path).map_err(PptxError::Generic)?;
+            image.source = Some(ImageSource::Bytes(std::fs::read(&path)?));
+
+            let mut slide = SlideContent::new("");
+            slide.images.push(image);
+            pres = pres.add_slide(slide);
         }
 
-        let _ = std::fs::remove_dir_all(&temp_dir);
         Ok(pres)
     }
 
diff --git a/src/export/image_export.rs b/src/export/image_export.rs
index cd6a79a..dda4ea5 100644
--- a/src/export/image_export.rs
+++ b/src/export/image_export.rs
@@ -7,6 +7,7 @@
 
 use crate::api::Presentation;
 use crate::exc::{PptxError, Result};
+use crate::opc::io::TempDir;
 use std::path::Path;
 use std::process::Command;
 
@@ -148,21 +149,17 @@ pub fn export_to_images<P: AsRef<Path>>(
     output_dir: P,
     options: &ImageExportOptions,
 ) -> Result<Vec<std::path::PathBuf>> {
-    // First save presentation to temporary PPTX file
-    let temp_dir = std::env::temp_dir();
-    let temp_pptx = temp_dir.join("temp_export.pptx");
-    presentation.save(&temp_pptx)?;
-
     let output_dir = output_dir.as_ref();
     std::fs::create_dir_all(output_dir)?;
 
-    // Use LibreOffice to convert to images
-    let result = export_pptx_to_images(&temp_pptx, output_dir, options);
-
-    // Cleanup temp file
-    let _ = std::fs::remove_file(&temp_pptx);
-
-    result
+    let (_temp_dir, images) = convert_to_images(presentation, options)?;
+    let mut exported = Vec::with_capacity(images.len());
+    for image in images {
+        let target = output_dir.join(image.file_name().unwrap_or_default());
+        crate::opc::io::write_file(&target, std::fs::read(&image)?)?;
+        exported.push(target);
+    }
+    Ok(exported)
 }
 
 /// Export a specific slide to an image
@@ -183,39 +180,39 @@ pub fn export_slide_to_image<P: AsRef<Path>>(
     let mut slide_options = options.clone();
     slide_options.slide_number = slide_number;
 
-    let output_dir = output_path
-        .as_ref()
-        .parent()
-        .unwrap_or(std::path::Path::new("."));
-
-    let paths = export_to_images(presentation, output_dir, &slide_options)?;
-
-    // Find the specific slide file
-    let expected_name = format!("Slide{}.{}", slide_number, slide_options.format.extension());
-    for path in paths {
-        if let Some(name) = path.file_name().and_then(|n| n.to_str())
-            && (name == expected_name || name.contains(&format!("Slide{}", slide_number))) {
-                // Rename to requested output path if different
-                if path != output_path.as_ref() {
-                    std::fs::rename(&path, &output_path)?;
-                    return Ok(output_path.as_ref().to_path_buf());
-                }
-                return Ok(path);
-            }
+    let output_path = output_path.as_ref();
+    if let Some(output_dir) = output_path.parent() {
+        std::fs::create_dir_all(output_dir)?;
     }
 
-    Err(PptxError::Generic(String::from("Export failed")))
+    let (_temp_dir, images) = convert_to_images(presentation, &slide_options)?;
+    let image = images
+        .iter()
+        .find(|path| extract_slide_number(path) == slide_number)
+        .ok_or_else(|| PptxError::Generic(String::from("Export failed")))?;
+    crate::opc::io::write_file(output_path, std::fs::read(image)?)?;
+    Ok(output_path.to_path_buf())
+}
+
+/// Convert a presentation in a private directory, which lasts as long as the
+/// returned guard
+fn convert_to_images(
+    presentation: &Presentation,
+    options: &ImageExportOptions,
+) -> Result<(TempDir, Vec<std::path::PathBuf>)> {
+    let temp_dir = TempDir::new("ppt_rs_export")?;
+    let temp_pptx = temp_dir.path().join("temp_export.pptx");
+    presentation.save(&temp_pptx)?;
+    let images = export_pptx_to_images(&temp_pptx, &temp_dir, options)?;
+    Ok((temp_dir, images))
 }
 
 /// Internal function to export PPTX file to images using LibreOffice
-fn export_pptx_to_images<P: AsRef<Path>, Q: AsRef<Path>>(
-    pptx_path: P,
-    output_dir: Q,
+fn export_pptx_to_images(
+    pptx_path: &Path,
+    output_dir: &TempDir,
     options: &ImageExportOptions,
 ) -> Result<Vec<std::path::PathBuf>> {
-    let pptx_path = pptx_path.as_ref();
-    let output_dir = output_dir.as_ref();
-
     // Check if LibreOffice is available
     if !is_libreoffice_available() {
         return Err(PptxError::Generic(String::from(
@@ -232,7 +229,7 @@ fn export_pptx_to_images<P: AsRef<Path>, Q: AsRef<Path>>(
         .arg("--convert-to")
         .arg(&convert_opt)
         .arg("--outdir")
-        .arg(output_dir)
+        .arg(output_dir.path())
         .arg(pptx_path);
 
     // Execute conversion
@@ -249,20 +246,11 @@ fn export_pptx_to_images<P: AsRef<Path>, Q: AsRef<Path>>(
     }
 
     // Collect output files
-    let mut image_files = Vec::new();
-    let file_stem = pptx_path.file_stem().and_then(|s| s.to_str()).unwrap_or("slide");
-
-    for entry in std::fs::read_dir(output_dir)? {
-        let entry = entry?;
-        let path = entry.path();
-        if let Some(file_ext) = path.extension().and_then(|e| e.to_str())
-            && file_ext.eq_ignore_ascii_case(ext) {
-                // Check if it is from our conversion
-                if let Some(name) = path.file_stem().and_then(|s| s.to_str())
-                    && (name.starts_with(file_stem) || name.starts_with("Slide")) {
-                        image_files.push(path);
-                    }
-            }
+    let mut image_files = output_dir.files_with_extension(ext)?;
+    if image_files.is_empty() {
+        return Err(PptxError::Generic(String::from(
+            "LibreOffice produced no images",
+        )));
     }
 
     // Sort by slide number
@@ -281,15 +269,13 @@ fn is_libreoffice_available() -> bool {
 }
 
 /// Extract slide number from filename
+///
+/// LibreOffice does not number the picture when it draws the first slide only.
 fn extract_slide_number(path: &std::path::Path) -> usize {
-    path.file_stem()
-        .and_then(|s| s.to_str())
-        .and_then(|name| {
-            // Extract number from "Slide1" or "slide1" or "temp_export1"
-            let digits: String = name.chars().filter(|c| c.is_ascii_digit()).collect();
-            digits.parse().ok()
-        })
-        .unwrap_or(0)
+    // Extract number from "Slide1" or "slide1" or "temp_export1"
+    let stem = path.file_stem().and_then(|s| s.to_str()).unwrap_or("");
+    let digits = stem.rsplit(|c: char| !c.is_ascii_digit()).next().unwrap_or("");
+    digits.parse().unwrap_or(1)
 }
 
 /// Render presentation thumbnail (first slide only)
diff --git a/src/opc/io.rs b/src/opc/io.rs
index cc3520d..a9660ae 100644
--- a/src/opc/io.rs
+++ b/src/opc/io.rs
@@ -106,6 +106,39 @@ pub fn write_file<P: AsRef<Path>>(path: P, data: impl AsRef<[u8]>) -> io::Result
     Ok(())
 }
 
+/// Private temporary directory, removed with its contents when dropped
+pub(crate) struct TempDir(PathBuf);
+
+impl TempDir {
+    pub(crate) fn new(prefix: &str) -> io::Result<Self> {
+        let path = std::env::temp_dir().join(format!("{prefix}_{}", uuid::Uuid::new_v4()));
+        fs::create_dir(&path)?;
+        Ok(TempDir(path))
+    }
+
+    pub(crate) fn path(&self) -> &Path {
+        &self.0
+    }
+
+    /// Files in this directory whose extension is `ext`
+    pub(crate) fn files_with_extension(&self, ext: &str) -> io::Result<Vec<PathBuf>> {
+        let mut files = Vec::new();
+        for entry in fs::read_dir(&self.0)? {
+            let path = entry?.path();
+            if path.extension().is_some_and(|e| e.eq_ignore_ascii_case(ext)) {
+                files.push(path);
+            }
+        }
+        Ok(files)
+    }
+}
+
+impl Drop for TempDir {
+    fn drop(&mut self) {
+        let _ = fs::remove_dir_all(&self.0);
+    }
+}
+
 fn fill(mut file: File, data: &[u8], permissions: Option<fs::Permissions>) -> io::Result<()> {
     file.write_all(data)?;
     if let Some(permissions) = permissions {
-- 
2.43.0


From f9ea58a43f99e3b3dd5099a16ab5fdfb9bf12c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:25 +0000
Subject: [PATCH 12/33] fix: document timestamps follow the calendar, also
 before 1970

---
 src/core/mod.rs            |  2 ++
 src/core/timestamp.rs      | 50 ++++++++++++++++++++++++++++++++++++++
 src/generator/props_xml.rs | 25 +------------------
 src/parts/coreprops.rs     | 32 +-----------------------
 4 files changed, 54 insertions(+), 55 deletions(-)
 create mode 100644 src/core/timestamp.rs

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 2e3b90f..86b768d 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -7,6 +7,7 @@ mod dimension;
 mod package_validation;
 mod placement;
 mod powerpoint_compat;
+mod timestamp;
 mod traits;
 mod validation;
 mod xml_utils;
@@ -18,6 +19,7 @@ pub use package_validation::{
 };
 pub use placement::ElementPlacement;
 pub use powerpoint_compat::{validate_powerpoint_structure, CompatReport};
+pub(crate) use timestamp::current_timestamp;
 pub use traits::{Positioned, Sized as ElementSized, ToXml};
 pub use validation::{
     check_required_parts, check_required_parts_with_descriptions, clamp_ratio,
diff --git a/src/core/timestamp.rs b/src/core/timestamp.rs
new file mode 100644
index 0000000..c2f33bc
--- /dev/null
+++ b/src/core/timestamp.rs
@@ -0,0 +1,50 @@
+//! Current time as a W3CDTF timestamp
+
+use std::time::{Duration, SystemTime, UNIX_EPOCH};
+
+const SECONDS_PER_DAY: i64 = 86_400;
+
+/// Current time in ISO 8601 format (UTC)
+pub fn current_timestamp() -> String {
+    let whole_seconds = |duration: Duration| i64::try_from(duration.as_secs()).unwrap_or(i64::MAX);
+    let seconds = match SystemTime::now().duration_since(UNIX_EPOCH) {
+        Ok(since) => whole_seconds(since),
+        Err(before) => {
+            let until = before.duration();
+            let partial = i64::from(until.subsec_nanos() > 0);
+            (-whole_seconds(until)).saturating_sub(partial)
+        }
+    };
+    format_timestamp(seconds)
+}
+
+/// Format seconds since 1970-01-01T00:00:00Z
+fn format_timestamp(seconds: i64) -> String {
+    let (year, month, day) = civil_date(seconds.div_euclid(SECONDS_PER_DAY));
+    let time = seconds.rem_euclid(SECONDS_PER_DAY);
+    format!(
+        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
+        year,
+        month,
+        day,
+        time / 3600,
+        (time % 3600) / 60,
+        time % 60
+    )
+}
+
+/// Year, month and day of a number of days since 1970-01-01 in the Gregorian calendar
+fn civil_date(days: i64) -> (i64, i64, i64) {
+    // Count from 0000-03-01, so that leap days come last in their year
+    let days = days + 719_468;
+    let era = days.div_euclid(146_097);
+    let day_of_era = days.rem_euclid(146_097);
+    let year_of_era =
+        (day_of_era - day_of_era / 1_460 + day_of_era / 36_524 - day_of_era / 146_096) / 365;
+    let day_of_year = day_of_era - (365 * year_of_era + year_of_era / 4 - year_of_era / 100);
+    let month_from_march = (5 * day_of_year + 2) / 153;
+    let day = day_of_year - (153 * month_from_march + 2) / 5 + 1;
+    let month = if month_from_march < 10 { month_from_march + 3 } else { month_from_march - 9 };
+    let year = era * 400 + year_of_era + i64::from(month <= 2);
+    (year, month, day)
+}
diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 13d0be2..de41aa9 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -1,29 +1,6 @@
 //! Document properties XML generation
 
-/// Get current timestamp in ISO 8601 format (UTC)
-fn current_timestamp() -> String {
-    let duration = std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap_or_else(|_| std::time::Duration::from_secs(0));
-
-    let secs = duration.as_secs();
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30;
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
-}
+use crate::core::current_timestamp;
 
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 76bf8ba..230b64e 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -3,40 +3,10 @@
 //! Represents docProps/core.xml with document metadata.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::current_timestamp;
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
-/// Get current timestamp in ISO 8601 format (UTC)
-/// Simple alternative to chrono::Utc::now()
-fn current_timestamp() -> String {
-    // Use std::time for current timestamp
-    let duration = std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap_or_else(|_| std::time::Duration::from_secs(0));
-
-    let secs = duration.as_secs();
-
-    // Convert to UTC datetime (simplified calculation)
-    // Days since Unix epoch
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    // Approximate date from Unix epoch (1970-01-01)
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30; // Approximate
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
-}
-
 /// Core properties part (docProps/core.xml)
 #[derive(Debug, Clone)]
 pub struct CorePropertiesPart {
-- 
2.43.0


From 33bcb0e37dd0e86fe699f68ca7f1f9b3c53f5682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 13/33] fix: the reader follows the slide list and reports
 damaged presentations

---
 src/oxml/mod.rs          |   1 +
 src/oxml/presentation.rs | 108 +++++++++------------------------------
 src/oxml/slide_list.rs   |  97 +++++++++++++++++++++++++++++++++++
 3 files changed, 121 insertions(+), 85 deletions(-)
 create mode 100644 src/oxml/slide_list.rs

diff --git a/src/oxml/mod.rs b/src/oxml/mod.rs
index 28db7f0..6fedebd 100644
--- a/src/oxml/mod.rs
+++ b/src/oxml/mod.rs
@@ -5,6 +5,7 @@ pub mod ns;
 pub mod presentation;
 pub mod repair;
 pub mod slide;
+pub(crate) mod slide_list;
 pub mod xmlchemy;
 
 pub use editor::PresentationEditor;
diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 26a784d..e8fe8c3 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -3,6 +3,7 @@
 //! Parses presentation.xml and provides high-level access to presentation content.
 
 use super::slide::{ParsedSlide, SlideParser};
+use super::slide_list::{package_slides, part_text, well_formed_part};
 use super::xmlchemy::XmlParser;
 use crate::exc::{messages, PptxError};
 use crate::opc::Package;
@@ -76,13 +77,10 @@ impl PresentationReader {
             .get(index)
             .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?;
 
-        let xml = self
-            .package
-            .get_part(path)
-            .ok_or_else(|| PptxError::NotFound(messages::slide_file_not_found(path)))?;
-
-        let xml_str = String::from_utf8_lossy(xml);
-        SlideParser::parse(&xml_str)
+        if !self.package.has_part(path) {
+            return Err(PptxError::NotFound(messages::slide_file_not_found(path)));
+        }
+        SlideParser::parse(part_text(&self.package, path)?)
     }
 
     /// Get all slides
@@ -115,89 +113,29 @@ impl PresentationReader {
     }
 
     fn parse_core_properties(&mut self) -> Result<(), PptxError> {
-        if let Some(core_xml) = self.package.get_part("docProps/core.xml") {
-            let xml_str = String::from_utf8_lossy(core_xml);
-            if let Ok(root) = XmlParser::parse_str(&xml_str) {
-                self.info.title = root
-                    .find_descendant("title")
-                    .map(|e| e.text_content())
-                    .filter(|s| !s.is_empty());
-
-                self.info.creator = root
-                    .find_descendant("creator")
-                    .map(|e| e.text_content())
-                    .filter(|s| !s.is_empty());
-
-                self.info.last_modified_by = root
-                    .find_descendant("lastModifiedBy")
-                    .map(|e| e.text_content())
-                    .filter(|s| !s.is_empty());
-
-                self.info.created = root
-                    .find_descendant("created")
-                    .map(|e| e.text_content())
-                    .filter(|s| !s.is_empty());
-
-                self.info.modified = root
-                    .find_descendant("modified")
-                    .map(|e| e.text_content())
-                    .filter(|s| !s.is_empty());
-
-                self.info.revision = root
-                    .find_descendant("revision")
-                    .and_then(|e| e.text_content().parse().ok());
-            }
+        if !self.package.has_part("docProps/core.xml") {
+            return Ok(());
         }
+        let root = XmlParser::parse_str(well_formed_part(&self.package, "docProps/core.xml")?)?;
+        let text = |name: &str| {
+            root.find_descendant(name)
+                .map(|e| e.text_content())
+                .filter(|s| !s.is_empty())
+        };
+        self.info.title = text("title");
+        self.info.creator = text("creator");
+        self.info.last_modified_by = text("lastModifiedBy");
+        self.info.created = text("created");
+        self.info.modified = text("modified");
+        self.info.revision = text("revision").and_then(|s| s.parse().ok());
         Ok(())
     }
 
     fn parse_presentation_xml(&mut self) -> Result<(), PptxError> {
-        // First, find slide references from presentation.xml.rels
-        if let Some(rels_xml) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_xml);
-            if let Ok(root) = XmlParser::parse_str(&xml_str) {
-                let mut slide_rels: Vec<(String, String)> = Vec::new();
-
-                for rel in root.find_all("Relationship") {
-                    let rel_type = rel.attr("Type").unwrap_or("");
-                    if rel_type.contains("/slide")
-                        && !rel_type.contains("Layout")
-                        && !rel_type.contains("Master")
-                        && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target")) {
-                            let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                                stripped.to_string()
-                            } else {
-                                format!("ppt/{target}")
-                            };
-                            slide_rels.push((id.to_string(), full_path));
-                        }
-                }
-
-                // Sort by relationship ID to maintain slide order
-                slide_rels.sort_by(|a, b| {
-                    let num_a: u32 = a.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    let num_b: u32 = b.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    num_a.cmp(&num_b)
-                });
-
-                self.slide_paths = slide_rels.into_iter().map(|(_, path)| path).collect();
-            }
-        }
-
-        // Fallback: scan for slide files
-        if self.slide_paths.is_empty() {
-            let paths = self.package.part_paths();
-            let mut slides: Vec<String> = paths
-                .into_iter()
-                .filter(|p| {
-                    p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-                })
-                .map(|s| s.to_string())
-                .collect();
-            slides.sort();
-            self.slide_paths = slides;
-        }
-
+        self.slide_paths = package_slides(&self.package)?
+            .into_iter()
+            .map(|slide| slide.path)
+            .collect();
         self.info.slide_count = self.slide_paths.len();
         Ok(())
     }
diff --git a/src/oxml/slide_list.rs b/src/oxml/slide_list.rs
new file mode 100644
index 0000000..1f7fabc
--- /dev/null
+++ b/src/oxml/slide_list.rs
@@ -0,0 +1,97 @@
+//! The ordered list of slides of a package
+
+use std::collections::HashMap;
+use std::ops::Range;
+
+use super::xmlchemy::XmlParser;
+use crate::exc::{messages, PptxError};
+use crate::opc::xml_edit::{attribute, elements, internal_target, Element};
+use crate::opc::Package;
+
+pub(crate) const PRESENTATION: &str = "ppt/presentation.xml";
+pub(crate) const PRESENTATION_RELS: &str = "ppt/_rels/presentation.xml.rels";
+
+/// A slide in the list
+pub(crate) struct ListedSlide {
+    /// Identifier in the list
+    pub id: Option<String>,
+    /// Relationship that leads to the slide
+    pub rel_id: String,
+    /// Path of the slide part
+    pub path: String,
+    /// Position of the list entry in presentation.xml
+    pub entry: Range<usize>,
+}
+
+/// The slide list element of presentation.xml
+///
+/// Sections, which are kept in an extension list, name slides as well.
+pub(crate) fn list_element(presentation: &str) -> Option<Element> {
+    let extensions = elements(presentation, "extLst");
+    elements(presentation, "sldIdLst")
+        .into_iter()
+        .find(|list| !extensions.iter().any(|e| e.range.contains(&list.range.start)))
+}
+
+/// Listed slides in presentation order
+pub(crate) fn listed_slides(presentation: &str, rels: &str) -> Result<Vec<ListedSlide>, PptxError> {
+    let targets: HashMap<String, String> = elements(rels, "Relationship")
+        .into_iter()
+        .filter_map(|e| {
+            let tag = &rels[e.tag];
+            Some((attribute(tag, "Id")?, internal_target(PRESENTATION_RELS, tag)?))
+        })
+        .collect();
+
+    let Some(list) = list_element(presentation) else {
+        return Ok(Vec::new());
+    };
+    let start = list.range.start;
+    elements(&presentation[list.range], "sldId")
+        .into_iter()
+        .map(|e| {
+            let entry = start + e.range.start..start + e.range.end;
+            let tag = &presentation[start + e.tag.start..start + e.tag.end];
+            let rel_id = relationship_id(tag)
+                .ok_or_else(|| PptxError::InvalidXml(format!("slide without relationship: {tag}")))?;
+            let path = targets.get(&rel_id).cloned().ok_or_else(|| {
+                PptxError::NotFound(format!("Slide relationship not found: {rel_id}"))
+            })?;
+            Ok(ListedSlide { id: attribute(tag, "id"), rel_id, path, entry })
+        })
+        .collect()
+}
+
+/// Listed slides of a package in presentation order
+pub(crate) fn package_slides(package: &Package) -> Result<Vec<ListedSlide>, PptxError> {
+    listed_slides(
+        well_formed_part(package, PRESENTATION)?,
+        well_formed_part(package, PRESENTATION_RELS)?,
+    )
+}
+
+/// Relationship an element refers to
+pub(crate) fn relationship_id(tag: &str) -> Option<String> {
+    attribute(tag, "r:id").or_else(|| {
+        // Another prefix for the relationships namespace
+        let name = tag.split(|c: char| c.is_whitespace() || c == '=').find(|w| w.ends_with(":id"))?;
+        attribute(tag, name)
+    })
+}
+
+/// Text of an XML part
+pub(crate) fn part_text<'a>(package: &'a Package, path: &str) -> Result<&'a str, PptxError> {
+    let bytes = package
+        .get_part(path)
+        .ok_or_else(|| PptxError::NotFound(messages::missing_part(path)))?;
+    std::str::from_utf8(bytes)
+        .map_err(|e| PptxError::InvalidXml(messages::invalid_xml(path, &e.to_string())))
+}
+
+/// Text of a part that must be well-formed XML
+pub(crate) fn well_formed_part<'a>(package: &'a Package, path: &str) -> Result<&'a str, PptxError> {
+    let xml = part_text(package, path)?;
+    XmlParser::parse_str(xml)
+        .map_err(|e| PptxError::XmlParse(messages::invalid_xml(path, &e.to_string())))?;
+    Ok(xml)
+}
-- 
2.43.0


From 44810b1c86d73777815adce687ba3e37754bf0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 14/33] fix: editing keeps the package consistent and
 everything that was not edited

---
 src/opc/xml_edit.rs |  93 ++++-
 src/oxml/editor.rs  | 925 +++++++++++++++++++++++++-------------------
 2 files changed, 607 insertions(+), 411 deletions(-)

diff --git a/src/opc/xml_edit.rs b/src/opc/xml_edit.rs
index 10cfdc2..c87cc09 100644
--- a/src/opc/xml_edit.rs
+++ b/src/opc/xml_edit.rs
@@ -4,6 +4,8 @@
 
 use std::ops::Range;
 
+use crate::core::escape_xml;
+
 /// An element found in an XML text
 pub(crate) struct Element {
     /// Position of the whole element, including its end tag
@@ -87,29 +89,65 @@ pub(crate) fn elements(xml: &str, name: &str) -> Vec<Element> {
 
 /// Value of an attribute of a start tag (`name` as written, with its prefix)
 pub(crate) fn attribute(tag: &str, name: &str) -> Option<String> {
-    let mut rest = tag.strip_prefix('<')?;
-    rest = &rest[rest.find(char::is_whitespace)?..];
+    attribute_value(tag, name).map(|value| {
+        tag[value]
+            .replace("&lt;", "<")
+            .replace("&gt;", ">")
+            .replace("&quot;", "\"")
+            .replace("&apos;", "'")
+            .replace("&amp;", "&")
+    })
+}
+
+/// Start tag with another value of an attribute that it has
+pub(crate) fn set_attribute(tag: &str, name: &str, value: &str) -> String {
+    match attribute_value(tag, name) {
+        Some(old) => format!("{}{}{}", &tag[..old.start], escape_xml(value), &tag[old.end..]),
+        None => tag.to_string(),
+    }
+}
+
+/// Position of the value of an attribute in a start tag
+fn attribute_value(tag: &str, name: &str) -> Option<Range<usize>> {
+    let mut pos = tag.find(char::is_whitespace)?;
     loop {
-        rest = rest.trim_start();
-        let eq = rest.find('=')?;
-        let key = rest[..eq].trim_end();
-        let value = rest[eq + 1..].trim_start();
-        let quote = value.chars().next().filter(|c| matches!(c, '"' | '\''))?;
-        let end = value[1..].find(quote)?;
+        let eq = pos + tag[pos..].find('=')?;
+        let key = tag[pos..eq].trim();
+        let rest = tag[eq + 1..].trim_start();
+        let quote = rest.chars().next().filter(|c| matches!(c, '"' | '\''))?;
+        let start = tag.len() - rest.len() + 1;
+        let end = start + tag[start..].find(quote)?;
         if key == name {
-            return Some(
-                value[1..1 + end]
-                    .replace("&lt;", "<")
-                    .replace("&gt;", ">")
-                    .replace("&quot;", "\"")
-                    .replace("&apos;", "'")
-                    .replace("&amp;", "&"),
-            );
+            return Some(start..end);
         }
-        rest = &value[end + 2..];
+        pos = end + 1;
     }
 }
 
+/// Prefix of an element's name, with its colon
+fn prefix(tag: &str) -> &str {
+    let name = tag.trim_start_matches('<');
+    let end = name.find(|c: char| c.is_whitespace() || c == '/' || c == '>').unwrap_or(0);
+    name[..end].find(':').map_or("", |colon| &name[..=colon])
+}
+
+/// Add a child at the end of an element
+///
+/// `child` makes the text of the child from the name prefix of the element.
+pub(crate) fn append_child(xml: &str, element: &Element, child: impl Fn(&str) -> String) -> String {
+    let text = &xml[element.range.clone()];
+    let prefix = prefix(text);
+    let edited = if element.tag == element.range {
+        let name = tag_name(text).unwrap_or_default();
+        let open = text.trim_end_matches("/>").trim_end();
+        format!("{open}>{}</{prefix}{name}>", child(prefix))
+    } else {
+        let end = text.rfind("</").unwrap_or(text.len());
+        format!("{}{}{}", &text[..end], child(prefix), &text[end..])
+    };
+    format!("{}{edited}{}", &xml[..element.range.start], &xml[element.range.end..])
+}
+
 /// Remove every element with the given local name whose start tag matches
 pub(crate) fn remove_elements(xml: &str, name: &str, matches: impl Fn(&str) -> bool) -> String {
     let mut result = String::with_capacity(xml.len());
@@ -132,6 +170,27 @@ pub(crate) fn rels_source(rels_path: &str) -> Option<String> {
     Some(format!("{dir}{file}"))
 }
 
+/// Path of the relationship file of a part ("" for the package itself)
+pub(crate) fn rels_path(part: &str) -> String {
+    let (dir, file) = part.rsplit_once('/').map_or(("", part), |(dir, file)| (dir, file));
+    let dir = if dir.is_empty() { String::new() } else { format!("{dir}/") };
+    format!("{dir}_rels/{file}.rels")
+}
+
+/// Target by which a part refers to another part
+pub(crate) fn relative_target(from: &str, to: &str) -> String {
+    let from: Vec<&str> = from.split('/').collect();
+    let to: Vec<&str> = to.split('/').collect();
+    let common = from[..from.len() - 1]
+        .iter()
+        .zip(&to[..to.len() - 1])
+        .take_while(|(a, b)| a == b)
+        .count();
+    let mut segments = vec![".."; from.len() - 1 - common];
+    segments.extend(&to[common..]);
+    segments.join("/")
+}
+
 /// Package path an internal relationship of `rels_path` leads to
 pub(crate) fn resolve_target(rels_path: &str, target: &str) -> String {
     let target = target.split('#').next().unwrap_or(target);
diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 105d7c5..0ad88ae 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -5,268 +5,150 @@
 //! - Update slide content
 //! - Remove slides
 //! - Modify presentation properties
+//!
+//! The slide list in presentation.xml is the list of slides; slide files keep
+//! their names. Every operation either succeeds or changes nothing.
+
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use super::slide::{ParsedSlide, SlideParser};
+use super::slide_list::{
+    list_element, listed_slides, package_slides, part_text, relationship_id, ListedSlide,
+    PRESENTATION, PRESENTATION_RELS,
+};
 use crate::exc::{messages, PptxError};
+use crate::generator::hyperlinks::HyperlinkAction;
 use crate::generator::slide_content::SlideContent;
-use crate::generator::package_xml::{
-    create_presentation_rels_xml_full, slide_id_value, slide_rel_id,
+use crate::core::escape_xml;
+use crate::generator::create_pptx_with_settings;
+use crate::opc::xml_edit::{
+    append_child, attribute, elements, internal_target, relative_target, rels_path, rels_source,
+    remove_elements, set_attribute,
 };
-use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
 use crate::opc::Package;
 
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const RELATIONSHIP_TYPE: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+
+/// Kinds of parts that slides of one presentation share
+const SHARED_KINDS: [&str; 11] = [
+    "slide", "slideLayout", "slideMaster", "notesMaster", "handoutMaster", "theme", "image",
+    "media", "video", "audio", "hyperlink",
+];
+
 /// Presentation editor for modifying PPTX files
 pub struct PresentationEditor {
     package: Package,
-    slide_count: usize,
 }
 
 impl PresentationEditor {
     /// Open a PPTX file for editing
     pub fn open(path: &str) -> Result<Self, PptxError> {
         let package = Package::open(path)?;
-        let slide_count = Self::count_slides(&package);
-
-        Ok(PresentationEditor {
-            package,
-            slide_count,
-        })
+        package_slides(&package)?;
+        Ok(PresentationEditor { package })
     }
 
     /// Create a new presentation for editing
     pub fn new() -> Self {
         PresentationEditor {
-            package: Package::new(),
-            slide_count: 0,
+            package: generate(&[]).unwrap_or_default(),
         }
     }
 
     /// Get number of slides
     pub fn slide_count(&self) -> usize {
-        self.slide_count
+        package_slides(&self.package).map_or(0, |slides| slides.len())
     }
 
     /// Get a parsed slide by index (0-based)
     pub fn get_slide(&self, index: usize) -> Result<ParsedSlide, PptxError> {
-        let slide_num = index + 1;
-        let path = format!("ppt/slides/slide{slide_num}.xml");
-        let xml = self
-            .package
-            .get_part(&path)
-            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?;
-
-        let xml_str = String::from_utf8_lossy(xml);
-        SlideParser::parse(&xml_str)
+        let slides = package_slides(&self.package)?;
+        let slide = slide_at(&slides, index)?;
+        SlideParser::parse(part_text(&self.package, &slide.path)?)
     }
 
     /// Add a new slide at the end
     pub fn add_slide(&mut self, content: SlideContent) -> Result<usize, PptxError> {
-        let new_index = self.slide_count + 1;
-
-        // Generate slide XML
-        let slide_xml = create_slide_xml_with_content(new_index, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        // Add slide file
-        let slide_path = format!("ppt/slides/slide{new_index}.xml");
-        self.package.add_part(slide_path, slide_xml.into_bytes());
-
-        // Add slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{new_index}.xml.rels");
-        self.package
-            .add_part(rels_path, slide_rels_xml.into_bytes());
-
-        // Update presentation.xml to include new slide
-        self.update_presentation_xml(new_index)?;
-
-        // Update presentation.xml.rels
-        self.update_presentation_rels(new_index)?;
-
-        // Update [Content_Types].xml
-        self.update_content_types(new_index)?;
-
-        self.slide_count = new_index;
-        Ok(new_index - 1) // Return 0-based index
+        let index = package_slides(&self.package)?.len();
+        self.insert_slide(index, content)
     }
 
     /// Update slide content at index
     pub fn update_slide(&mut self, index: usize, content: SlideContent) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let slide_xml = create_slide_xml_with_content(slide_num, &content, &[], None);
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-
-        self.package.add_part(slide_path, slide_xml.into_bytes());
-        Ok(())
+        self.edit(|draft| {
+            let slides = draft.slides()?;
+            let path = slide_at(&slides, index)?.path.clone();
+            let paths: Vec<String> = slides.into_iter().map(|slide| slide.path).collect();
+            let before = draft.reachable();
+            draft.put_content(&path, content, &paths)?;
+            draft.remove_unreachable(&before)
+        })
     }
 
     /// Remove a slide by index
     pub fn remove_slide(&mut self, index: usize) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-
-        // Remove slide file
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        self.package.remove_part(&slide_path);
-
-        // Remove slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-        self.package.remove_part(&rels_path);
-
-        // Renumber remaining slides
-        for i in (slide_num + 1)..=self.slide_count {
-            self.renumber_slide(i, i - 1)?;
-        }
-
-        self.slide_count -= 1;
-
-        // Update presentation files
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
-        Ok(())
+        self.edit(|draft| {
+            let slides = draft.slides()?;
+            let slide = slide_at(&slides, index)?;
+            let before = draft.reachable();
+            draft.unlist(slide)?;
+            if !slides.iter().enumerate().any(|(i, s)| i != index && s.path == slide.path) {
+                draft.remove_references(&slide.path)?;
+            }
+            draft.remove_unreachable(&before)
+        })
     }
 
     /// Duplicate an existing slide, inserting the copy immediately after the original.
     pub fn duplicate_slide(&mut self, index: usize) -> Result<usize, PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let new_index = index + 1;
-        let new_num = new_index + 1;
-
-        // Copy original slide content and relationships.
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-
-        let slide_data = self
-            .package
-            .get_part(&slide_path)
-            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?
-            .to_vec();
-        let rels_data = self
-            .package
-            .get_part(&rels_path)
-            .unwrap_or_default()
-            .to_vec();
-
-        // Shift slides after the original to make room for the duplicate.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Insert duplicate at the newly vacated position.
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_data);
-        self.package
-            .add_part(format!("ppt/slides/_rels/slide{new_num}.xml.rels"), rels_data);
-
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
-        Ok(new_index)
+        self.edit(|draft| {
+            let slides = draft.slides()?;
+            let path = &slide_at(&slides, index)?.path;
+            let copy = draft.free_name(path);
+            let source = draft.package;
+            draft.copy_parts(source, path, &copy, |draft, kind, target| {
+                Ok((SHARED_KINDS.contains(&kind) && draft.has(target)).then(|| target.to_string()))
+            })?;
+            draft.list(index + 1, &copy)?;
+            Ok(index + 1)
+        })
     }
 
     /// Insert a new slide at the specified index.
     pub fn insert_slide(&mut self, index: usize, content: SlideContent) -> Result<usize, PptxError> {
-        if index > self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let new_num = index + 1;
-
-        // Shift slides at and after the insertion point upward.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Generate and insert the new slide.
-        let slide_xml = create_slide_xml_with_content(new_num, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_xml.into_bytes());
-        self.package.add_part(
-            format!("ppt/slides/_rels/slide{new_num}.xml.rels"),
-            slide_rels_xml.into_bytes(),
-        );
-
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
-        Ok(index)
+        self.edit(|draft| {
+            let mut paths: Vec<String> = draft.slides()?.into_iter().map(|s| s.path).collect();
+            if index > paths.len() {
+                return Err(PptxError::NotFound(messages::slide_not_found(index)));
+            }
+            let path = draft.free_name("ppt/slides/slide1.xml");
+            paths.insert(index, path.clone());
+            draft.put_content(&path, content, &paths)?;
+            draft.list(index, &path)?;
+            Ok(index)
+        })
     }
 
     /// Reorder a slide from one position to another.
     pub fn reorder_slide(&mut self, from_index: usize, to_index: usize) -> Result<(), PptxError> {
-        if from_index >= self.slide_count || to_index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(
-                from_index.max(to_index),
-            )));
-        }
-
-        if from_index == to_index {
-            return Ok(());
-        }
-
-        let from_num = from_index + 1;
-        let to_num = to_index + 1;
-
-        // Extract the slide being moved.
-        let temp_slide_path = "ppt/slides/_temp_slide.xml".to_string();
-        let temp_rels_path = "ppt/slides/_rels/_temp_slide.xml.rels".to_string();
-
-        if let Some(data) = self.package.remove_part(&format!("ppt/slides/slide{from_num}.xml")) {
-            self.package.add_part(temp_slide_path.clone(), data);
-        }
-        if let Some(data) =
-            self.package.remove_part(&format!("ppt/slides/_rels/slide{from_num}.xml.rels"))
-        {
-            self.package.add_part(temp_rels_path.clone(), data);
-        }
-
-        if from_index < to_index {
-            // Shift intermediate slides left.
-            for i in from_num..to_num {
-                self.renumber_slide(i + 1, i)?;
+        self.edit(|draft| {
+            let slides = draft.slides()?;
+            slide_at(&slides, from_index.max(to_index))?;
+            if from_index == to_index {
+                return Ok(());
             }
-        } else {
-            // Shift intermediate slides right.
-            for i in (to_num..from_num).rev() {
-                self.renumber_slide(i, i + 1)?;
-            }
-        }
-
-        // Place the moved slide at the target position.
-        if let Some(data) = self.package.remove_part(&temp_slide_path) {
-            self.package
-                .add_part(format!("ppt/slides/slide{to_num}.xml"), data);
-        }
-        if let Some(data) = self.package.remove_part(&temp_rels_path) {
-            self.package
-                .add_part(format!("ppt/slides/_rels/slide{to_num}.xml.rels"), data);
-        }
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
-        Ok(())
+            let (from, to) = (&slides[from_index].entry, &slides[to_index].entry);
+            let xml = draft.text(PRESENTATION)?;
+            let moved = &xml[from.clone()];
+            let edited = if from_index < to_index {
+                [&xml[..from.start], &xml[from.end..to.end], moved, &xml[to.end..]].concat()
+            } else {
+                [&xml[..to.start], moved, &xml[to.start..from.start], &xml[from.end..]].concat()
+            };
+            draft.put(PRESENTATION, edited);
+            Ok(())
+        })
     }
 
     /// Save the modified presentation
@@ -285,240 +167,495 @@ impl PresentationEditor {
         &mut self.package
     }
 
-    // Helper methods
+    /// Apply the changes of an operation, unless it fails
+    fn edit<T>(
+        &mut self,
+        operation: impl FnOnce(&mut Draft) -> Result<T, PptxError>,
+    ) -> Result<T, PptxError> {
+        let mut draft = Draft { package: &self.package, changes: BTreeMap::new() };
+        let result = operation(&mut draft)?;
+        for (path, content) in draft.changes {
+            match content {
+                Some(content) => self.package.add_part(path, content),
+                None => {
+                    self.package.remove_part(&path);
+                }
+            }
+        }
+        Ok(result)
+    }
+}
 
-    fn count_slides(package: &Package) -> usize {
-        package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .count()
+fn slide_at(slides: &[ListedSlide], index: usize) -> Result<&ListedSlide, PptxError> {
+    slides
+        .get(index)
+        .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))
+}
+
+/// A complete presentation with the given slides
+fn generate(slides: &[SlideContent]) -> Result<Package, PptxError> {
+    let bytes = create_pptx_with_settings("Presentation", slides, None)?;
+    Package::open_reader(std::io::Cursor::new(bytes))
+}
+
+/// Last segment of the type of a relationship
+fn relationship_kind(tag: &str) -> String {
+    let kind = attribute(tag, "Type").unwrap_or_default();
+    kind.rsplit('/').next().unwrap_or_default().to_string()
+}
+
+/// Content type of a part, and whether it is declared by extension
+fn content_type(types: &str, path: &str) -> Option<(String, bool)> {
+    let find = |name: &str, key: &str, value: &str| {
+        elements(types, name).into_iter().find_map(|e| {
+            let tag = &types[e.tag];
+            attribute(tag, key)
+                .filter(|v| v.trim_start_matches('/').eq_ignore_ascii_case(value))
+                .and(attribute(tag, "ContentType"))
+        })
+    };
+    let extension = path.rsplit('.').next().unwrap_or_default();
+    find("Override", "PartName", path)
+        .map(|t| (t, false))
+        .or_else(|| find("Default", "Extension", extension).map(|t| (t, true)))
+}
+
+/// Changes to a package that are not applied yet
+struct Draft<'a> {
+    package: &'a Package,
+    changes: BTreeMap<String, Option<Vec<u8>>>,
+}
+
+impl<'a> Draft<'a> {
+    fn get(&self, path: &str) -> Option<&[u8]> {
+        match self.changes.get(path) {
+            Some(content) => content.as_deref(),
+            None => self.package.get_part(path),
+        }
     }
 
-    fn presentation_has_notes(xml: &str) -> bool {
-        xml.contains("<p:notesMasterIdLst>")
+    fn has(&self, path: &str) -> bool {
+        self.get(path).is_some()
     }
 
-    fn presentation_has_handout(xml: &str) -> bool {
-        xml.contains("<p:handoutMasterIdLst>")
+    fn text(&self, path: &str) -> Result<&str, PptxError> {
+        let bytes = self
+            .get(path)
+            .ok_or_else(|| PptxError::NotFound(messages::missing_part(path)))?;
+        std::str::from_utf8(bytes)
+            .map_err(|e| PptxError::InvalidXml(messages::invalid_xml(path, &e.to_string())))
     }
 
-    fn update_presentation_xml(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("ppt/presentation.xml") {
-            // Parse and update the presentation XML
-            let updated = self.add_slide_to_presentation_xml(&xml, new_slide_count)?;
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), updated.into_bytes());
-        }
-        Ok(())
+    fn put(&mut self, path: &str, content: impl Into<Vec<u8>>) {
+        self.changes.insert(path.to_string(), Some(content.into()));
     }
 
-    fn add_slide_to_presentation_xml(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        // Find </p:sldIdLst> and insert new slide reference before it
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let slide_id = slide_id_value(slide_num);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
+    fn remove(&mut self, path: &str) {
+        self.changes.insert(path.to_string(), None);
+    }
 
-        let new_slide_ref = format!("\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>");
+    fn paths(&self) -> BTreeSet<String> {
+        let stored = self.package.part_paths().into_iter().map(str::to_string);
+        let changed = self.changes.keys().cloned();
+        stored.chain(changed).filter(|path| self.has(path)).collect()
+    }
 
-        if let Some(pos) = xml.find("</p:sldIdLst>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_slide_ref);
-            Ok(result)
-        } else {
-            // If no sldIdLst, return as-is (shouldn't happen for valid PPTX)
-            Ok(xml.to_string())
-        }
+    fn slides(&self) -> Result<Vec<ListedSlide>, PptxError> {
+        listed_slides(self.text(PRESENTATION)?, self.text(PRESENTATION_RELS)?)
     }
 
-    fn update_presentation_rels(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self
-            .package
-            .get_part_string("ppt/_rels/presentation.xml.rels")
-        {
-            let updated = self.add_slide_to_presentation_rels(&xml, new_slide_count)?;
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                updated.into_bytes(),
-            );
-        }
+    /// Replace the text of an element found by name with an extended one
+    fn append(
+        &mut self,
+        path: &str,
+        parent: &str,
+        child: impl Fn(&str) -> String,
+    ) -> Result<(), PptxError> {
+        let xml = self.text(path)?;
+        let element = elements(xml, parent).into_iter().next().ok_or_else(|| {
+            PptxError::InvalidXml(messages::invalid_xml(path, &format!("no {parent}")))
+        })?;
+        let edited = append_child(xml, &element, child);
+        self.put(path, edited);
         Ok(())
     }
 
-    fn add_slide_to_presentation_rels(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-        let new_rel = format!(
-            "\n<Relationship Id=\"rId{r_id}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{slide_num}.xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Relationships>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_rel);
-            Ok(result)
+    /// A name like the given one that no part has
+    fn free_name(&self, like: &str) -> String {
+        let taken: HashSet<String> = self.paths().iter().map(|p| p.to_lowercase()).collect();
+        let (dir, file) = like.rsplit_once('/').map_or(("", like), |(d, f)| (d, f));
+        let (stem, extension) = file.rsplit_once('.').unwrap_or((file, ""));
+        let stem = stem.trim_end_matches(|c: char| c.is_ascii_digit());
+        (1u64..)
+            .map(|n| format!("{dir}/{stem}{n}.{extension}"))
+            .find(|name| !taken.contains(&name.to_lowercase()))
+            .unwrap_or_default()
+    }
+
+    /// Add a relationship to the presentation
+    fn relate(&mut self, kind: &str, path: &str) -> Result<String, PptxError> {
+        let rels = self.text(PRESENTATION_RELS)?;
+        let ids: HashSet<String> = elements(rels, "Relationship")
+            .into_iter()
+            .filter_map(|e| attribute(&rels[e.tag], "Id"))
+            .collect();
+        let id = (1u64..)
+            .map(|n| format!("rId{n}"))
+            .find(|id| !ids.contains(id))
+            .unwrap_or_default();
+        let target = escape_xml(&relative_target(PRESENTATION, path));
+        self.append(PRESENTATION_RELS, "Relationships", |prefix| {
+            format!(
+                "<{prefix}Relationship Id=\"{id}\" Type=\"{RELATIONSHIP_TYPE}/{kind}\" Target=\"{target}\"/>"
+            )
+        })?;
+        Ok(id)
+    }
+
+    /// Declare the content type of a part
+    fn declare(&mut self, path: &str, declared: Option<(String, bool)>) -> Result<(), PptxError> {
+        let Some((content_type, by_extension)) = declared else {
+            return Ok(());
+        };
+        let known = self::content_type(self.text(CONTENT_TYPES)?, path);
+        if known.as_ref().is_some_and(|(known, _)| *known == content_type) {
+            return Ok(());
+        }
+        let content_type = escape_xml(&content_type);
+        if by_extension && known.is_none() {
+            let extension = escape_xml(path.rsplit('.').next().unwrap_or_default());
+            self.append(CONTENT_TYPES, "Types", |prefix| {
+                format!("<{prefix}Default Extension=\"{extension}\" ContentType=\"{content_type}\"/>")
+            })
         } else {
-            Ok(xml.to_string())
+            let path = escape_xml(path);
+            self.append(CONTENT_TYPES, "Types", |prefix| {
+                format!("<{prefix}Override PartName=\"/{path}\" ContentType=\"{content_type}\"/>")
+            })
         }
     }
 
-    fn update_content_types(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("[Content_Types].xml") {
-            let updated = self.add_slide_to_content_types(&xml, new_slide_count)?;
-            self.package
-                .add_part("[Content_Types].xml".to_string(), updated.into_bytes());
-        }
+    /// Insert an element of the presentation after the first of `predecessors`
+    /// that it has, or at its start
+    fn insert_presentation_element(
+        &mut self,
+        predecessors: &[&str],
+        element: impl Fn(&str, &str) -> String,
+    ) -> Result<(), PptxError> {
+        let xml = self.text(PRESENTATION)?;
+        let root = elements(xml, "presentation").into_iter().next().filter(|e| e.tag != e.range);
+        let root = root.ok_or_else(|| {
+            PptxError::InvalidXml(messages::invalid_xml(PRESENTATION, "no presentation"))
+        })?;
+        let position = predecessors
+            .iter()
+            .find_map(|name| elements(xml, name).first().map(|e| e.range.end))
+            .unwrap_or(root.tag.end);
+        let prefix = xml[root.tag.start + 1..root.tag.end]
+            .split("presentation")
+            .next()
+            .unwrap_or_default();
+        let edited = [
+            &xml[..position],
+            &element(prefix, &self.relationship_attribute()?),
+            &xml[position..],
+        ]
+        .concat();
+        self.put(PRESENTATION, edited);
         Ok(())
     }
 
-    fn add_slide_to_content_types(&self, xml: &str, slide_num: usize) -> Result<String, PptxError> {
-        let new_override = format!(
-            "\n<Override PartName=\"/ppt/slides/slide{slide_num}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Types>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_override);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
-        }
+    /// Beginning of an attribute that refers to a relationship of the presentation
+    fn relationship_attribute(&self) -> Result<String, PptxError> {
+        let xml = self.text(PRESENTATION)?;
+        let root = elements(xml, "presentation").into_iter().next();
+        let tag = root.map_or("", |e| &xml[e.tag]);
+        let declaration = tag
+            .split_whitespace()
+            .filter_map(|word| word.strip_prefix("xmlns:")?.split_once('='))
+            .find(|(_, uri)| uri.get(1..).is_some_and(|uri| uri.starts_with(RELATIONSHIP_TYPE)));
+        Ok(match declaration {
+            Some((prefix, _)) => format!("{prefix}:id"),
+            None => format!("xmlns:r=\"{RELATIONSHIP_TYPE}\" r:id"),
+        })
     }
 
-    fn renumber_slide(&mut self, old_num: usize, new_num: usize) -> Result<(), PptxError> {
-        // Move slide file
-        let old_path = format!("ppt/slides/slide{old_num}.xml");
-        let new_path = format!("ppt/slides/slide{new_num}.xml");
-
-        if let Some(content) = self.package.remove_part(&old_path) {
-            self.package.add_part(new_path, content);
+    /// Enter a slide part into the slide list
+    fn list(&mut self, index: usize, path: &str) -> Result<(), PptxError> {
+        let rel_id = self.relate("slide", path)?;
+        if list_element(self.text(PRESENTATION)?).is_none() {
+            let predecessors = ["handoutMasterIdLst", "notesMasterIdLst", "sldMasterIdLst"];
+            self.insert_presentation_element(&predecessors, |prefix, _| {
+                format!("<{prefix}sldIdLst></{prefix}sldIdLst>")
+            })?;
         }
 
-        // Move slide rels
-        let old_rels = format!("ppt/slides/_rels/slide{old_num}.xml.rels");
-        let new_rels = format!("ppt/slides/_rels/slide{new_num}.xml.rels");
-
-        if let Some(content) = self.package.remove_part(&old_rels) {
-            self.package.add_part(new_rels, content);
-        }
+        let slides = self.slides()?;
+        let used: HashSet<u32> = slides
+            .iter()
+            .filter_map(|slide| slide.id.as_ref()?.trim().parse().ok())
+            .collect();
+        let last = used.iter().copied().max().unwrap_or(0).max(255);
+        let id = std::iter::once(last.saturating_add(1))
+            .chain(256..)
+            .find(|id| *id < 0x8000_0000 && !used.contains(id))
+            .unwrap_or_default();
+        let attribute = self.relationship_attribute()?;
+
+        let xml = self.text(PRESENTATION)?;
+        let Some(list) = list_element(xml) else {
+            return Err(PptxError::InvalidXml(messages::invalid_xml(PRESENTATION, "no slide list")));
+        };
+        let entry = |prefix: &str| format!("<{prefix}sldId id=\"{id}\" {attribute}=\"{rel_id}\"/>");
+        let edited = match slides.get(index) {
+            Some(next) => {
+                let name = xml[next.entry.start + 1..].split("sldId").next().unwrap_or_default();
+                let (before, after) = xml.split_at(next.entry.start);
+                [before, &entry(name), after].concat()
+            }
+            None => append_child(xml, &list, entry),
+        };
+        self.put(PRESENTATION, edited);
+        Ok(())
+    }
 
+    /// Take a slide out of the slide list, the sections and the custom shows
+    fn unlist(&mut self, slide: &ListedSlide) -> Result<(), PptxError> {
+        let xml = self.text(PRESENTATION)?;
+        let xml = [&xml[..slide.entry.start], &xml[slide.entry.end..]].concat();
+        let is_slide = |tag: &str| {
+            let id = attribute(tag, "id");
+            id.is_some() && id == slide.id && relationship_id(tag).is_none()
+        };
+        let xml = remove_elements(&xml, "sldId", is_slide);
+        let xml = remove_elements(&xml, "sld", |tag| {
+            relationship_id(tag).as_ref() == Some(&slide.rel_id)
+        });
+        let rels = remove_elements(self.text(PRESENTATION_RELS)?, "Relationship", |tag| {
+            attribute(tag, "Id").as_ref() == Some(&slide.rel_id)
+        });
+        self.put(PRESENTATION, xml);
+        self.put(PRESENTATION_RELS, rels);
         Ok(())
     }
 
-    fn rebuild_presentation_xml(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let mut slide_refs = String::new();
-        for i in 1..=self.slide_count {
-            let slide_id = slide_id_value(i);
-            let r_id = slide_rel_id(i, has_notes, has_handout);
-            slide_refs.push_str(&format!(
-                "\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>"
-            ));
+    /// Remove the relationships that lead to a part, and the links that use them
+    fn remove_references(&mut self, target: &str) -> Result<(), PptxError> {
+        for rels_path in self.paths() {
+            let Some(source) = rels_source(&rels_path) else {
+                continue;
+            };
+            let leads_there =
+                |tag: &str| internal_target(&rels_path, tag).as_deref() == Some(target);
+            let rels = self.text(&rels_path)?;
+            let ids: Vec<String> = elements(rels, "Relationship")
+                .into_iter()
+                .filter(|e| leads_there(&rels[e.tag.clone()]))
+                .filter_map(|e| attribute(&rels[e.tag], "Id"))
+                .collect();
+            if ids.is_empty() {
+                continue;
+            }
+            let rels = remove_elements(rels, "Relationship", leads_there);
+            self.put(&rels_path, rels);
+            if self.has(&source) {
+                let mut xml = self.text(&source)?.to_string();
+                for link in ["hlinkClick", "hlinkHover", "hlinkMouseOver"] {
+                    xml = remove_elements(&xml, link, |tag| {
+                        relationship_id(tag).is_some_and(|id| ids.contains(&id))
+                    });
+                }
+                self.put(&source, xml);
+            }
         }
+        Ok(())
+    }
 
-        let mut xml = String::from(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" saveSubsetFonts="1" autoCompressPictures="0">
-<p:sldMasterIdLst>
-<p:sldMasterId id="2147483648" r:id="rId1"/>
-</p:sldMasterIdLst>"#,
-        );
-
-        if has_notes {
-            xml.push_str(
-                r#"
-<p:notesMasterIdLst>
-<p:notesMasterId id="2147483650" r:id="rId6"/>
-</p:notesMasterIdLst>"#,
-            );
+    /// Parts that relationships lead to from the root of the package
+    fn reachable(&self) -> BTreeSet<String> {
+        let mut reached = BTreeSet::new();
+        let mut queue = vec![String::new()];
+        while let Some(part) = queue.pop() {
+            let rels_path = rels_path(&part);
+            let Ok(rels) = self.text(&rels_path) else {
+                continue;
+            };
+            for element in elements(rels, "Relationship") {
+                if let Some(target) = internal_target(&rels_path, &rels[element.tag])
+                    && self.has(&target)
+                    && reached.insert(target.clone())
+                {
+                    queue.push(target);
+                }
+            }
         }
+        reached
+    }
 
-        if has_handout {
-            let handout_rid = if has_notes { 7 } else { 6 };
-            xml.push_str(&format!(
-                r#"
-<p:handoutMasterIdLst>
-<p:handoutMasterId id="2147483651" r:id="rId{handout_rid}"/>
-</p:handoutMasterIdLst>"#
-            ));
+    /// Remove the parts that were reachable before and are not any more
+    fn remove_unreachable(&mut self, before: &BTreeSet<String>) -> Result<(), PptxError> {
+        let after = self.reachable();
+        let removed: HashSet<&String> = before.difference(&after).collect();
+        if removed.is_empty() {
+            return Ok(());
         }
-
-        xml.push_str(&format!(
-            r#"
-<p:sldIdLst>{slide_refs}
-</p:sldIdLst>
-<p:sldSz cx="9144000" cy="6858000" type="screen4x3"/>
-<p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#
-        ));
-
-        self.package
-            .add_part("ppt/presentation.xml".to_string(), xml.into_bytes());
+        for path in &removed {
+            self.remove(path);
+            self.remove(&rels_path(path));
+        }
+        let types = remove_elements(self.text(CONTENT_TYPES)?, "Override", |tag| {
+            attribute(tag, "PartName")
+                .is_some_and(|name| removed.contains(&name.trim_start_matches('/').to_string()))
+        });
+        self.put(CONTENT_TYPES, types);
         Ok(())
     }
 
-    fn rebuild_presentation_rels(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let xml = create_presentation_rels_xml_full(self.slide_count, has_notes, has_handout);
+    /// Store generated content as the given slide part
+    ///
+    /// `slides` are the paths of all slides, to which the content can link.
+    fn put_content(
+        &mut self,
+        path: &str,
+        content: SlideContent,
+        slides: &[String],
+    ) -> Result<(), PptxError> {
+        let links: Vec<usize> = content
+            .shapes
+            .iter()
+            .filter_map(|shape| match shape.hyperlink.as_ref()?.action {
+                HyperlinkAction::Slide(number) => Some(number as usize),
+                _ => None,
+            })
+            .collect();
+        if let Some(number) = links.iter().find(|n| **n == 0 || **n > slides.len()) {
+            return Err(PptxError::NotFound(format!("Linked slide {number} not found")));
+        }
+        let last_link = links.into_iter().max().unwrap_or(0);
+
+        let mut contents = vec![SlideContent::new(""); last_link];
+        contents.push(content);
+        let donor = generate(&contents)?;
+        let donor_slides: Vec<String> = package_slides(&donor)?.into_iter().map(|s| s.path).collect();
+        let source = slide_path(&donor_slides, last_link)?;
+        let notes_master = self.notes_master()?;
+
+        let copied = self.copy_parts(&donor, source, path, |draft, kind, target| {
+            if let Some(position) = donor_slides.iter().position(|p| p == target) {
+                return slide_path(slides, position).map(|p| Some(p.clone()));
+            }
+            Ok(match kind {
+                "slideLayout" => Some(draft.layout_like(target)?),
+                "notesMaster" => notes_master.clone(),
+                _ => None,
+            })
+        })?;
 
-        self.package.add_part(
-            "ppt/_rels/presentation.xml.rels".to_string(),
-            xml.into_bytes(),
-        );
+        if notes_master.is_none()
+            && let Some(master) = copied.iter().find(|p| p.starts_with("ppt/notesMasters/notesMaster"))
+        {
+            let rel_id = self.relate("notesMaster", master)?;
+            self.insert_presentation_element(&["sldMasterIdLst"], |prefix, attribute| {
+                format!(
+                    "<{prefix}notesMasterIdLst><{prefix}notesMasterId {attribute}=\"{rel_id}\"/></{prefix}notesMasterIdLst>"
+                )
+            })?;
+        }
         Ok(())
     }
 
-    fn rebuild_content_types(&mut self) -> Result<(), PptxError> {
-        let mut slide_overrides = String::new();
-        for i in 1..=self.slide_count {
-            slide_overrides.push_str(&format!(
-                "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-            ));
-        }
+    /// Notes master of the presentation
+    fn notes_master(&self) -> Result<Option<String>, PptxError> {
+        let rels = self.text(PRESENTATION_RELS)?;
+        Ok(elements(rels, "Relationship")
+            .into_iter()
+            .map(|e| &rels[e.tag])
+            .filter(|tag| relationship_kind(tag) == "notesMaster")
+            .filter_map(|tag| internal_target(PRESENTATION_RELS, tag))
+            .find(|path| self.has(path)))
+    }
 
-        let xml = format!(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
-<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-<Default Extension="xml" ContentType="application/xml"/>
-<Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>{slide_overrides}
-<Override PartName="/ppt/slideLayouts/slideLayout1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"/>
-<Override PartName="/ppt/slideMasters/slideMaster1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"/>
-<Override PartName="/ppt/theme/theme1.xml" ContentType="application/vnd.openxmlformats-officedocument.theme+xml"/>
-<Override PartName="/docProps/core.xml" ContentType="application/vnd.openxmlformats-package.core-properties+xml"/>
-<Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>
-</Types>"#
-        );
-
-        self.package
-            .add_part("[Content_Types].xml".to_string(), xml.into_bytes());
-        Ok(())
+    /// The layout with the same number, or else the first one
+    fn layout_like(&self, layout: &str) -> Result<String, PptxError> {
+        if self.has(layout) {
+            return Ok(layout.to_string());
+        }
+        self.paths()
+            .into_iter()
+            .filter(|path| path.starts_with("ppt/slideLayouts/") && rels_source(path).is_none())
+            .min_by_key(|path| (path.len(), path.clone()))
+            .ok_or_else(|| PptxError::NotFound(messages::missing_part(layout)))
+    }
+
+    /// Copy a part, as the given path, and the parts that it needs
+    ///
+    /// `existing` tells which part to use instead of a copy. The paths of the
+    /// new parts are returned.
+    fn copy_parts(
+        &mut self,
+        source: &Package,
+        from: &str,
+        to: &str,
+        existing: impl Fn(&Self, &str, &str) -> Result<Option<String>, PptxError>,
+    ) -> Result<Vec<String>, PptxError> {
+        let types = part_text(source, CONTENT_TYPES)?.to_string();
+        let mut copies = HashMap::from([(from.to_string(), to.to_string())]);
+        let mut queue = vec![from.to_string()];
+        while let Some(path) = queue.pop() {
+            let copy = copies[&path].clone();
+            let content = source
+                .get_part(&path)
+                .ok_or_else(|| PptxError::NotFound(messages::missing_part(&path)))?;
+            self.put(&copy, content);
+            self.declare(&copy, content_type(&types, &path))?;
+
+            let source_rels = rels_path(&path);
+            if !source.has_part(&source_rels) {
+                self.remove(&rels_path(&copy));
+                continue;
+            }
+            let rels = part_text(source, &source_rels)?;
+            let mut edited = String::with_capacity(rels.len());
+            let mut position = 0;
+            for element in elements(rels, "Relationship") {
+                let tag = &rels[element.tag.clone()];
+                let Some(target) = internal_target(&source_rels, tag) else {
+                    continue;
+                };
+                let new_target = match copies.get(&target) {
+                    Some(copied) => copied.clone(),
+                    None => match existing(self, &relationship_kind(tag), &target)? {
+                        Some(shared) => shared,
+                        None if source.has_part(&target) => {
+                            let copied = self.free_name(&target);
+                            self.put(&copied, Vec::new());
+                            copies.insert(target.clone(), copied.clone());
+                            queue.push(target.clone());
+                            copied
+                        }
+                        None => continue,
+                    },
+                };
+                let written = attribute(tag, "Target").unwrap_or_default();
+                let fragment = written.find('#').map_or("", |at| &written[at..]);
+                let new_target = format!("{}{fragment}", relative_target(&copy, &new_target));
+                edited.push_str(&rels[position..element.tag.start]);
+                edited.push_str(&set_attribute(tag, "Target", &new_target));
+                position = element.tag.end;
+            }
+            edited.push_str(&rels[position..]);
+            self.put(&rels_path(&copy), edited);
+        }
+        Ok(copies.into_values().collect())
     }
 }
 
+fn slide_path(slides: &[String], index: usize) -> Result<&String, PptxError> {
+    slides
+        .get(index)
+        .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))
+}
+
 impl Default for PresentationEditor {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 37fa18acdb893929414a94b280e323f211f223fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 15/33] fix: repair finds every broken part, keeps what is good
 and reports what it could not mend

---
 src/core/validation.rs |    5 +
 src/opc/xml_edit.rs    |   65 ++-
 src/oxml/repair.rs     | 1153 +++++++++++++++++++++++++---------------
 3 files changed, 796 insertions(+), 427 deletions(-)

diff --git a/src/core/validation.rs b/src/core/validation.rs
index 84fd9cb..08d6e72 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -104,6 +104,11 @@ pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
     if trimmed.is_empty() {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
+    if trimmed.starts_with("<?xml") && !xml.starts_with("<?xml") {
+        return Err(PptxError::InvalidXml(
+            "whitespace before the XML declaration".to_string(),
+        ));
+    }
 
     for event in xml::reader::EventReader::from_str(trimmed) {
         event.map_err(|e| PptxError::InvalidXml(e.to_string()))?;
diff --git a/src/opc/xml_edit.rs b/src/opc/xml_edit.rs
index c87cc09..86571fa 100644
--- a/src/opc/xml_edit.rs
+++ b/src/opc/xml_edit.rs
@@ -89,14 +89,17 @@ pub(crate) fn elements(xml: &str, name: &str) -> Vec<Element> {
 
 /// Value of an attribute of a start tag (`name` as written, with its prefix)
 pub(crate) fn attribute(tag: &str, name: &str) -> Option<String> {
-    attribute_value(tag, name).map(|value| {
-        tag[value]
-            .replace("&lt;", "<")
-            .replace("&gt;", ">")
-            .replace("&quot;", "\"")
-            .replace("&apos;", "'")
-            .replace("&amp;", "&")
-    })
+    attribute_value(tag, name).map(|value| unescape(&tag[value]))
+}
+
+/// Text that an attribute value stands for
+fn unescape(value: &str) -> String {
+    value
+        .replace("&lt;", "<")
+        .replace("&gt;", ">")
+        .replace("&quot;", "\"")
+        .replace("&apos;", "'")
+        .replace("&amp;", "&")
 }
 
 /// Start tag with another value of an attribute that it has
@@ -107,6 +110,52 @@ pub(crate) fn set_attribute(tag: &str, name: &str, value: &str) -> String {
     }
 }
 
+/// Start tag without one of its attributes
+pub(crate) fn remove_attribute(tag: &str, name: &str) -> String {
+    match attribute_value(tag, name) {
+        Some(value) => {
+            let start = tag[..value.start].rfind(name).unwrap_or(value.start);
+            format!("{}{}", tag[..start].trim_end(), &tag[value.end + 1..])
+        }
+        None => tag.to_string(),
+    }
+}
+
+/// Names and values of the attributes of a start tag
+pub(crate) fn attributes(tag: &str) -> Vec<(String, String)> {
+    let mut found = Vec::new();
+    let mut pos = 0;
+    while let Some(eq) = tag[pos..].find('=') {
+        let key = tag[pos..pos + eq].trim_end();
+        let key = key.rsplit(char::is_whitespace).next().unwrap_or_default();
+        let rest = tag[pos + eq + 1..].trim_start();
+        let Some(quote) = rest.chars().next().filter(|c| matches!(c, '"' | '\'')) else {
+            break;
+        };
+        let start = tag.len() - rest.len() + 1;
+        let Some(end) = tag[start..].find(quote) else {
+            break;
+        };
+        found.push((key.to_string(), unescape(&tag[start..start + end])));
+        pos = start + end + 1;
+    }
+    found
+}
+
+/// Positions of all start tags
+pub(crate) fn tags(xml: &str) -> Vec<Range<usize>> {
+    let mut found = Vec::new();
+    let mut pos = 0;
+    while let Some(markup) = next_markup(xml, pos) {
+        pos = markup.end;
+        let text = &xml[markup.clone()];
+        if tag_name(text).is_some() && !text.starts_with("</") {
+            found.push(markup);
+        }
+    }
+    found
+}
+
 /// Position of the value of an attribute in a start tag
 fn attribute_value(tag: &str, name: &str) -> Option<Range<usize>> {
     let mut pos = tag.find(char::is_whitespace)?;
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8cad2df..7cdfe3b 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -7,15 +7,48 @@
 //! - Missing slide references
 //! - Corrupted package structure
 
+use super::slide_list::{
+    list_element, listed_slides, relationship_id, ListedSlide, PRESENTATION, PRESENTATION_RELS,
+};
 use crate::core::{
-    check_required_parts_with_descriptions, validate_well_formed_xml, ValidationIssue,
+    check_required_parts_with_descriptions, escape_xml, validate_well_formed_xml, ValidationIssue,
     REQUIRED_PARTS_REPAIR,
 };
 use crate::exc::{PptxError, Result};
+use crate::opc::xml_edit::{
+    append_child, attribute, attributes, elements, internal_target, relative_target,
+    remove_attribute, remove_elements, rels_path, rels_source, resolve_target, set_attribute, tags,
+};
 use crate::opc::Package;
 use std::collections::HashSet;
 use std::path::Path;
 
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const PACKAGE_RELS: &str = "_rels/.rels";
+const RELATIONSHIP_TYPE: &str =
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+const CORE_PROPERTIES_TYPE: &str =
+    "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties";
+const EMPTY_RELS: &str = r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"></Relationships>"#;
+
+/// References from presentation.xml, and where the parts they lead to are kept
+const PRESENTATION_LISTS: [(&str, &str, &str); 4] = [
+    ("sldMasterId", "slideMaster", "ppt/slideMasters/"),
+    ("notesMasterId", "notesMaster", "ppt/notesMasters/"),
+    ("handoutMasterId", "handoutMaster", "ppt/handoutMasters/"),
+    ("sldId", "slide", "ppt/slides/"),
+];
+
+/// Parts of the presentation that nothing in presentation.xml names
+const PRESENTATION_EXTRAS: [(&str, &str); 5] = [
+    ("theme", "ppt/theme/theme1.xml"),
+    ("presProps", "ppt/presProps.xml"),
+    ("viewProps", "ppt/viewProps.xml"),
+    ("tableStyles", "ppt/tableStyles.xml"),
+    ("commentAuthors", "ppt/commentAuthors.xml"),
+];
+
 /// Types of issues that can be detected in a PPTX file
 #[derive(Debug, Clone, PartialEq)]
 pub enum RepairIssue {
@@ -209,33 +242,45 @@ impl PptxRepair {
     }
 
     /// Repair all detected issues
+    ///
+    /// A repair can uncover further issues, which are repaired as well. What
+    /// counts as repaired is what a validation of the result does not find.
     pub fn repair(&mut self) -> RepairResult {
         let mut result = RepairResult::new();
-
-        // First validate to find issues
         result.issues_found = self.validate();
 
-        if result.issues_found.is_empty() {
-            result.is_valid = true;
-            return result;
-        }
-
-        // Attempt to repair each issue
-        for issue in &result.issues_found.clone() {
-            if issue.is_repairable() {
-                match self.repair_issue(issue) {
-                    Ok(()) => result.issues_repaired.push(issue.clone()),
-                    Err(_) => result.issues_unrepaired.push(issue.clone()),
+        let mut attempted: Vec<RepairIssue> = Vec::new();
+        loop {
+            let pending: Vec<RepairIssue> = self
+                .issues
+                .iter()
+                .filter(|issue| issue.is_repairable() && !attempted.contains(issue))
+                .cloned()
+                .collect();
+            // One kind at a time: a missing part explains relationships to it
+            let Some(kind) = pending.first().map(std::mem::discriminant) else {
+                break;
+            };
+            for issue in pending {
+                if std::mem::discriminant(&issue) == kind {
+                    // Whether it helped shows in the validation
+                    let _ = self.repair_issue(&issue);
+                    attempted.push(issue);
+                }
+            }
+            for issue in self.validate() {
+                if !result.issues_found.contains(&issue) {
+                    result.issues_found.push(issue);
                 }
-            } else {
-                result.issues_unrepaired.push(issue.clone());
             }
         }
 
-        // Re-validate to check if repairs were successful
-        let remaining_issues = self.validate();
-        result.is_valid = remaining_issues.is_empty();
-
+        (result.issues_unrepaired, result.issues_repaired) = result
+            .issues_found
+            .iter()
+            .cloned()
+            .partition(|issue| self.issues.contains(issue));
+        result.is_valid = self.issues.is_empty();
         result
     }
 
@@ -277,21 +322,39 @@ impl PptxRepair {
         }
     }
 
-    fn check_xml_validity(&mut self) {
-        let xml_parts: Vec<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| p.ends_with(".xml") || p.ends_with(".rels"))
-            .map(|s| s.to_string())
-            .collect();
+    /// Part names in a fixed order
+    fn sorted_paths(&self) -> Vec<String> {
+        let mut paths: Vec<String> =
+            self.package.part_paths().into_iter().map(str::to_string).collect();
+        paths.sort();
+        paths
+    }
 
-        for path in xml_parts {
-            if let Some(content) = self.package.get_part(&path) {
-                let xml_str = String::from_utf8_lossy(content);
-                if let Err(e) = self.validate_xml(&xml_str) {
-                    self.issues.push(RepairIssue::InvalidXml { path, error: e });
-                }
+    /// Text of a part, if it is well-formed XML
+    fn xml(&self, path: &str) -> Option<&str> {
+        let xml = std::str::from_utf8(self.package.get_part(path)?).ok()?;
+        self.validate_xml(xml).ok()?;
+        Some(xml)
+    }
+
+    fn put(&mut self, path: &str, content: String) {
+        self.package.add_part(path.to_string(), content.into_bytes());
+    }
+
+    fn check_xml_validity(&mut self) {
+        for path in self.sorted_paths() {
+            if !path.ends_with(".xml") && !path.ends_with(".rels") {
+                continue;
+            }
+            let content = self.package.get_part(&path).unwrap_or_default();
+            if content.starts_with(&[0xFE, 0xFF]) || content.starts_with(&[0xFF, 0xFE]) {
+                continue; // UTF-16
+            }
+            let checked = std::str::from_utf8(content)
+                .map_err(|e| e.to_string())
+                .and_then(|xml| self.validate_xml(xml));
+            if let Err(error) = checked {
+                self.issues.push(RepairIssue::InvalidXml { path, error });
             }
         }
     }
@@ -301,169 +364,165 @@ impl PptxRepair {
     }
 
     fn check_relationships(&mut self) {
-        // Check _rels/.rels
-        self.check_rels_file("_rels/.rels");
-
-        // Check ppt/_rels/presentation.xml.rels
-        self.check_rels_file("ppt/_rels/presentation.xml.rels");
-
-        // Check slide relationship files
-        let slide_rels: Vec<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| p.starts_with("ppt/slides/_rels/") && p.ends_with(".xml.rels"))
-            .map(|s| s.to_string())
-            .collect();
-
-        for rels_path in slide_rels {
-            self.check_rels_file(&rels_path);
+        let paths = self.sorted_paths();
+        for path in &paths {
+            if rels_source(path).is_some_and(|s| s.is_empty() || self.package.has_part(&s)) {
+                self.check_rels_file(path);
+            }
+        }
+        if let Some(rels) = self.xml(PACKAGE_RELS)
+            && self.package.has_part(PRESENTATION)
+            && !elements(rels, "Relationship").into_iter().any(|e| {
+                internal_target(PACKAGE_RELS, &rels[e.tag]).as_deref() == Some(PRESENTATION)
+            })
+        {
+            self.issues.push(RepairIssue::BrokenRelationship {
+                source: PACKAGE_RELS.to_string(),
+                target: PRESENTATION.to_string(),
+                rel_id: String::new(),
+            });
+        }
+        for path in &paths {
+            if path.starts_with("ppt/") && path.ends_with(".xml") {
+                self.check_references(path);
+            }
         }
     }
 
+    /// Check that the targets of the relationships of a part exist
     fn check_rels_file(&mut self, rels_path: &str) {
-        if let Some(content) = self.package.get_part(rels_path) {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Parse relationships and check targets exist
-            for line in xml_str.lines() {
-                if line.contains("Relationship") && line.contains("Target=")
-                    && let Some(target) = self.extract_attribute(line, "Target") {
-                        let rel_id = self.extract_attribute(line, "Id").unwrap_or_default();
-
-                        // Skip external relationships
-                        if target.starts_with("http://") || target.starts_with("https://") {
-                            continue;
-                        }
-
-                        // Resolve relative path
-                        let full_path = self.resolve_path(rels_path, &target);
-
-                        if !self.package.has_part(&full_path) && !target.contains("..") {
-                            self.issues.push(RepairIssue::BrokenRelationship {
-                                source: rels_path.to_string(),
-                                target: full_path,
-                                rel_id,
-                            });
-                        }
-                    }
+        let mut broken = Vec::new();
+        let rels = self.xml(rels_path).unwrap_or_default();
+        for element in elements(rels, "Relationship") {
+            let tag = &rels[element.tag];
+            let Some(target) = internal_target(rels_path, tag) else {
+                continue;
+            };
+            // Addresses are external, also where they are not declared so
+            let written = self.extract_attribute(tag, "Target").unwrap_or_default();
+            if !written.contains(':') && !self.package.has_part(&target) {
+                broken.push(RepairIssue::BrokenRelationship {
+                    source: rels_path.to_string(),
+                    target,
+                    rel_id: self.extract_attribute(tag, "Id").unwrap_or_default(),
+                });
             }
         }
+        self.issues.extend(broken);
     }
 
-    fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
-        let pattern = format!("{}=\"", attr);
-        if let Some(start) = line.find(&pattern) {
-            let value_start = start + pattern.len();
-            if let Some(end) = line[value_start..].find('"') {
-                return Some(line[value_start..value_start + end].to_string());
+    /// Check that the relationships a part refers to exist
+    fn check_references(&mut self, path: &str) {
+        let rels_path = rels_path(path);
+        let rels = match self.xml(&rels_path) {
+            Some(rels) => rels,
+            None if self.package.has_part(&rels_path) => return,
+            None => "",
+        };
+        let known = relationship_ids(rels);
+        let mut broken = Vec::new();
+        let xml = self.xml(path).unwrap_or_default();
+        for tag in tags(xml) {
+            for (_, rel_id) in references(&xml[tag]) {
+                let issue = RepairIssue::BrokenRelationship {
+                    source: path.to_string(),
+                    target: String::new(),
+                    rel_id,
+                };
+                if let RepairIssue::BrokenRelationship { rel_id, .. } = &issue
+                    && !known.contains(rel_id)
+                    && !broken.contains(&issue)
+                {
+                    broken.push(issue);
+                }
             }
         }
-        None
+        self.issues.extend(broken);
+    }
+
+    fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
+        attribute(line, attr)
     }
 
     fn resolve_path(&self, rels_path: &str, target: &str) -> String {
-        if let Some(stripped) = target.strip_prefix('/') {
-            return stripped.to_string();
-        }
+        resolve_target(rels_path, target)
+    }
 
-        // Get directory of rels file
-        let rels_dir = rels_path.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-        let base_dir = rels_dir
-            .replace("_rels", "")
-            .trim_end_matches('/')
-            .to_string();
-
-        if target.starts_with("../") {
-            // Go up one directory
-            let parent = base_dir.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-            format!("{}/{}", parent, target.trim_start_matches("../"))
-        } else {
-            if base_dir.is_empty() {
-                target.to_string()
-            } else {
-                format!("{}/{}", base_dir, target)
-            }
-        }
+    /// Slides in the slide list, without those whose relationship is unknown
+    fn listed(&self) -> Vec<ListedSlide> {
+        let xml = self.xml(PRESENTATION).unwrap_or_default();
+        let rels = self.xml(PRESENTATION_RELS).unwrap_or_default();
+        let known = relationship_ids(rels);
+        let unknown = |tag: &str| relationship_id(tag).is_none_or(|id| !known.contains(&id));
+        listed_slides(&remove_elements(xml, "sldId", unknown), rels).unwrap_or_default()
     }
 
     fn check_slide_references(&mut self) {
-        // Get slides from presentation.xml.rels
-        let mut referenced_slides: HashSet<String> = HashSet::new();
-        let slide_rel_type = crate::parts::relationships::RelationshipType::Slide.uri();
-
-        if let Some(rels_content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_content);
-            for line in xml_str.lines() {
-                if let Some(type_attr) = self.extract_attribute(line, "Type") {
-                    if type_attr != slide_rel_type {
-                        continue;
-                    }
-                    if let Some(target) = self.extract_attribute(line, "Target") {
-                        let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                            stripped.to_string()
-                        } else {
-                            format!("ppt/{}", target)
-                        };
-                        referenced_slides.insert(full_path);
-                    }
-                }
-            }
-        }
-
-        // Get actual slide files
-        let actual_slides: HashSet<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .map(|s| s.to_string())
-            .collect();
-
         // Check for orphan references (referenced but don't exist)
-        for slide in &referenced_slides {
-            if !actual_slides.contains(slide) {
-                self.issues.push(RepairIssue::OrphanSlide {
-                    slide_path: slide.clone(),
-                });
-            }
-        }
+        let slide_type = crate::parts::relationships::RelationshipType::Slide.uri();
+        let rels = self.xml(PRESENTATION_RELS).unwrap_or_default();
+        let orphans: Vec<RepairIssue> = elements(rels, "Relationship")
+            .into_iter()
+            .map(|e| &rels[e.tag])
+            .filter(|tag| self.extract_attribute(tag, "Type").as_deref() == Some(slide_type))
+            .filter_map(|tag| self.extract_attribute(tag, "Target"))
+            .map(|target| self.resolve_path(PRESENTATION_RELS, &target))
+            .filter(|slide_path| !self.package.has_part(slide_path))
+            .map(|slide_path| RepairIssue::OrphanSlide { slide_path })
+            .collect();
 
         // Check for unreferenced slides
-        for slide in &actual_slides {
-            if !referenced_slides.contains(slide) {
-                self.issues.push(RepairIssue::MissingSlideReference {
-                    slide_path: slide.clone(),
-                });
-            }
+        let mut unlisted = Vec::new();
+        if self.xml(PRESENTATION).is_some() && self.xml(PRESENTATION_RELS).is_some() {
+            let listed: HashSet<String> = self.listed().into_iter().map(|s| s.path).collect();
+            unlisted = self.parts_in("ppt/slides/");
+            unlisted.retain(|path| !listed.contains(path));
         }
-    }
 
-    fn check_content_types(&mut self) {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Check that all parts have content types
-            let parts = self.package.part_paths();
-            for part in parts {
-                if part == "[Content_Types].xml" {
-                    continue;
-                }
+        self.issues.extend(orphans);
+        self.issues.extend(
+            unlisted.into_iter().map(|slide_path| RepairIssue::MissingSlideReference { slide_path }),
+        );
+    }
 
-                // Check if part has Override or matches Default
-                let has_override = xml_str.contains(&format!("PartName=\"/{}\"", part));
-                let extension = part.rsplit('.').next().unwrap_or("");
-                let has_default = xml_str.contains(&format!("Extension=\"{}\"", extension));
+    /// XML parts in a folder, in the order of their numbers
+    fn parts_in(&self, folder: &str) -> Vec<String> {
+        let mut paths = self.sorted_paths();
+        paths.retain(|path| {
+            path.strip_prefix(folder).is_some_and(|f| f.ends_with(".xml") && !f.contains('/'))
+        });
+        paths.sort_by_key(|path| {
+            let stem = path.trim_end_matches(".xml");
+            let number = &stem[stem.trim_end_matches(|c: char| c.is_ascii_digit()).len()..];
+            number.parse::<u64>().unwrap_or(u64::MAX)
+        });
+        paths
+    }
 
-                if !has_override && !has_default && !part.ends_with(".rels") {
-                    self.issues.push(RepairIssue::InvalidContentType {
-                        path: part.to_string(),
-                    });
+    fn check_content_types(&mut self) {
+        let Some(types) = self.xml(CONTENT_TYPES) else {
+            return;
+        };
+        let wrong: Vec<RepairIssue> = self
+            .sorted_paths()
+            .into_iter()
+            .filter(|path| path != CONTENT_TYPES)
+            .filter(|path| {
+                match declared_type(types, path).as_deref() {
+                    None => true,
+                    // The generic type does not do for parts of the presentation
+                    Some("application/xml" | "text/xml") => {
+                        !matches!(
+                            self.infer_content_type(path),
+                            "application/xml" | "application/octet-stream"
+                        )
+                    }
+                    Some(_) => false,
                 }
-            }
-        }
+            })
+            .map(|path| RepairIssue::InvalidContentType { path })
+            .collect();
+        self.issues.extend(wrong);
     }
 
     // Repair methods
@@ -495,11 +554,23 @@ impl PptxRepair {
     }
 
     fn repair_missing_part(&mut self, path: &str) -> Result<()> {
+        // What is made anew follows the other parts
+        for path in [PRESENTATION, PRESENTATION_RELS] {
+            self.mend_xml(path);
+        }
         let content = match path {
-            "[Content_Types].xml" => self.generate_content_types(),
-            "_rels/.rels" => self.generate_package_rels(),
-            "ppt/presentation.xml" => self.generate_presentation_xml(),
-            "ppt/_rels/presentation.xml.rels" => self.generate_presentation_rels(),
+            CONTENT_TYPES => self.generate_content_types(),
+            PACKAGE_RELS => self.generate_package_rels(),
+            PRESENTATION => {
+                if self.xml(PRESENTATION_RELS).is_none() {
+                    // Both are made from the parts there are
+                    self.package.remove_part(PRESENTATION);
+                    let rels = self.generate_presentation_rels();
+                    self.put(PRESENTATION_RELS, rels);
+                }
+                self.generate_presentation_xml()
+            }
+            PRESENTATION_RELS => self.generate_presentation_rels(),
             _ => {
                 return Err(PptxError::Generic(format!(
                     "Cannot generate part: {}",
@@ -508,279 +579,294 @@ impl PptxRepair {
             }
         };
 
-        self.package
-            .add_part(path.to_string(), content.into_bytes());
+        self.put(path, content);
         Ok(())
     }
 
     fn repair_invalid_xml(&mut self, path: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part(path) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Try to repair using anyrepair for JSON-like structures
-            // For XML, we try basic fixes
-            let repaired = self.attempt_xml_repair(&xml_str);
+        if self.mend_xml(path) {
+            return Ok(());
+        }
+        // Beyond repair, but some parts can be made anew
+        self.repair_missing_part(path)
+    }
 
-            self.package
-                .add_part(path.to_string(), repaired.into_bytes());
+    /// Make the XML of a part well-formed, if that is possible
+    fn mend_xml(&mut self, path: &str) -> bool {
+        if self.xml(path).is_some() {
+            return true;
         }
-        Ok(())
+        let content = self.package.get_part(path).unwrap_or_default();
+        let repaired = self.attempt_xml_repair(&String::from_utf8_lossy(content));
+        let mended = self.validate_xml(&repaired).is_ok();
+        if mended {
+            self.put(path, repaired);
+        }
+        mended
     }
 
     fn attempt_xml_repair(&self, xml: &str) -> String {
-        let mut repaired = xml.to_string();
-
         // Ensure XML declaration
-        if !repaired.trim().starts_with("<?xml") {
-            repaired = format!(
+        let xml = xml.trim_start();
+        let xml = if xml.trim_start_matches('\u{FEFF}').starts_with("<?xml") {
+            xml.to_string()
+        } else {
+            format!(
                 "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n{}",
-                repaired
-            );
-        }
-
-        // Fix common issues
-        // Replace bare & with &amp; (but not existing entities)
-        // Since Rust regex doesn't support look-ahead, we use a different approach
-        let mut result = String::new();
-        let mut chars = repaired.chars().peekable();
-        while let Some(ch) = chars.next() {
-            if ch == '&' {
-                // Check if this is already an entity
-                let mut entity = String::from("&");
-                let mut is_entity = false;
-                let mut temp_chars: Vec<char> = Vec::new();
-
-                while let Some(&next) = chars.peek() {
-                    if next == ';' {
-                        entity.push(chars.next().unwrap());
-                        is_entity = entity == "&amp;"
-                            || entity == "&lt;"
-                            || entity == "&gt;"
-                            || entity == "&quot;"
-                            || entity == "&apos;"
-                            || entity.starts_with("&#");
-                        break;
-                    } else if next.is_alphanumeric() || next == '#' || next == 'x' {
-                        temp_chars.push(chars.next().unwrap());
-                        entity.push(*temp_chars.last().unwrap());
-                    } else {
-                        break;
-                    }
-                    if entity.len() > 10 {
-                        break;
-                    }
-                }
+                xml
+            )
+        };
 
-                if is_entity {
-                    result.push_str(&entity);
-                } else {
-                    result.push_str("&amp;");
-                    for c in temp_chars {
-                        result.push(c);
-                    }
-                }
+        // Replace bare & with &amp; (but not existing entities), except where
+        // it stands for itself
+        let mut repaired = String::with_capacity(xml.len());
+        let mut rest = xml.as_str();
+        while let Some(pos) = rest.find(['&', '<']) {
+            repaired.push_str(&rest[..pos]);
+            rest = &rest[pos..];
+            let literal = [("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>")]
+                .into_iter()
+                .find(|(start, _)| rest.starts_with(start))
+                .and_then(|(_, end)| Some(rest.find(end)? + end.len()));
+            if let Some(len) = literal {
+                repaired.push_str(&rest[..len]);
+                rest = &rest[len..];
             } else {
-                result.push(ch);
+                let bare = rest.starts_with('&') && !is_entity(rest);
+                repaired.push_str(if bare { "&amp;" } else { &rest[..1] });
+                rest = &rest[1..];
             }
         }
-        repaired = result;
-
+        repaired.push_str(rest);
         repaired
     }
 
     fn repair_broken_relationship(
         &mut self,
         source: &str,
-        _target: &str,
+        target: &str,
         rel_id: &str,
     ) -> Result<()> {
-        // Remove the broken relationship from the rels file
-        if let Some(content) = self.package.get_part(source) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
+        if source == PACKAGE_RELS && rel_id.is_empty() && self.package.has_part(target) {
+            // The presentation is there, but nothing leads to it
+            let rels = self.xml(PACKAGE_RELS).unwrap_or_default();
+            let rels = add_relationship(rels, "", &self.free_rel_id(rels), "officeDocument", target);
+            self.put(PACKAGE_RELS, rels);
+            return Ok(());
+        }
+        let part = match rels_source(source) {
+            Some(part) if source.ends_with(".rels") => {
+                // Remove the broken relationship from the rels file
+                let rels = self.xml(source).unwrap_or_default();
+                let rels = remove_elements(rels, "Relationship", |tag| {
+                    attribute(tag, "Id").unwrap_or_default() == rel_id
+                        && internal_target(source, tag).as_deref() == Some(target)
+                });
+                self.put(source, rels);
+                part
+            }
+            _ => {
+                if source == PRESENTATION {
+                    self.complete_presentation_rels();
+                }
+                source.to_string()
+            }
+        };
+        let rels_path = rels_path(&part);
+        let known = relationship_ids(self.xml(&rels_path).unwrap_or_default());
+        if !part.is_empty() && !known.contains(rel_id) {
+            self.remove_references(&part, rel_id);
+        }
+        Ok(())
+    }
 
-            // Remove the relationship line with this ID
-            let pattern = format!("Id=\"{}\"", rel_id);
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&pattern))
+    /// Remove what a part refers to by a relationship it does not have
+    fn remove_references(&mut self, path: &str, rel_id: &str) {
+        let Some(xml) = self.xml(path) else {
+            return;
+        };
+        let refers = |tag: &str| references(tag).iter().any(|(_, id)| id == rel_id);
+        let mut edited = xml.to_string();
+        if path == PRESENTATION {
+            let entries: Vec<String> = elements(xml, "sldId")
+                .into_iter()
+                .filter(|e| refers(&xml[e.tag.clone()]))
+                .filter_map(|e| attribute(&xml[e.tag], "id"))
                 .collect();
-
-            let repaired = lines.join("\n");
-            self.package
-                .add_part(source.to_string(), repaired.into_bytes());
+            for tag in tags(xml) {
+                let name = xml[tag.clone()].trim_start_matches('<');
+                let name = name.split(|c: char| c.is_whitespace() || c == '/' || c == '>').next();
+                let name = name.and_then(|n| n.rsplit(':').next()).unwrap_or_default();
+                if refers(&xml[tag]) && name != "presentation" {
+                    edited = remove_elements(&edited, name, refers);
+                }
+            }
+            // Sections name slides by their identifiers
+            edited = remove_elements(&edited, "sldId", |tag| {
+                relationship_id(tag).is_none()
+                    && attribute(tag, "id").is_some_and(|id| entries.contains(&id))
+            });
+        } else {
+            for link in ["hlinkClick", "hlinkHover", "hlinkMouseOver"] {
+                edited = remove_elements(&edited, link, refers);
+            }
+            for tag in tags(&edited).into_iter().rev() {
+                let text = &edited[tag.clone()];
+                let stripped = references(text)
+                    .into_iter()
+                    .filter(|(_, id)| id == rel_id)
+                    .fold(text.to_string(), |text, (name, _)| remove_attribute(&text, &name));
+                edited.replace_range(tag, &stripped);
+            }
         }
-        Ok(())
+        self.put(path, edited);
     }
 
     fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
-        // Add the slide to presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
+        let rels = self.xml(PRESENTATION_RELS).unwrap_or_default();
+        let related = elements(rels, "Relationship").into_iter().find_map(|e| {
+            let tag = &rels[e.tag];
+            let target = internal_target(PRESENTATION_RELS, tag)?;
+            attribute(tag, "Id").filter(|_| target == slide_path)
+        });
+        let rel_id = match related {
+            Some(id) => id,
+            None => {
+                let id = self.free_rel_id(rels);
+                let rels = add_relationship(rels, PRESENTATION, &id, "slide", slide_path);
+                self.put(PRESENTATION_RELS, rels);
+                id
+            }
+        };
+        self.add_slide_to_presentation(&rel_id)
+    }
 
-            // Find the highest rId
-            let max_id = self.find_max_rel_id(&xml_str);
-            let new_id = format!("rId{}", max_id + 1);
-
-            // Extract slide number from path
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Add new relationship before </Relationships>
-            let new_rel = format!(
-                "  <Relationship Id=\"{}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"{}\"/>",
-                new_id, slide_target
-            );
-
-            let repaired = xml_str.replace(
-                "</Relationships>",
-                &format!("{}\n</Relationships>", new_rel),
-            );
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
-
-            // Also update presentation.xml sldIdLst
-            self.add_slide_to_presentation(&new_id)?;
-        }
-        Ok(())
+    /// Relationship identifier that is not in use
+    fn free_rel_id(&self, rels: &str) -> String {
+        let used = relationship_ids(rels);
+        std::iter::once(self.find_max_rel_id(rels).saturating_add(1))
+            .chain(1..)
+            .map(|n| format!("rId{n}"))
+            .find(|id| !used.contains(id))
+            .unwrap_or_default()
     }
 
     fn add_slide_to_presentation(&mut self, rel_id: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("ppt/presentation.xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find highest slide ID
-            let max_slide_id = self.find_max_slide_id(&xml_str);
-            let new_slide_id = max_slide_id + 1;
-
-            // Add to sldIdLst
-            let new_entry = format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", new_slide_id, rel_id);
-
-            let repaired = if xml_str.contains("</p:sldIdLst>") {
-                xml_str.replace("</p:sldIdLst>", &format!("{}\n</p:sldIdLst>", new_entry))
-            } else if xml_str.contains("<p:sldIdLst/>") {
-                xml_str.replace(
-                    "<p:sldIdLst/>",
-                    &format!("<p:sldIdLst>{}</p:sldIdLst>", new_entry),
-                )
-            } else {
-                // Insert sldIdLst after sldMasterIdLst
-                xml_str.replace(
-                    "</p:sldMasterIdLst>",
-                    &format!(
-                        "</p:sldMasterIdLst>\n<p:sldIdLst>{}</p:sldIdLst>",
-                        new_entry
-                    ),
-                )
-            };
-
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
-        }
+        let xml = self.xml(PRESENTATION).unwrap_or_default();
+        let root = elements(xml, "presentation").into_iter().next().filter(|e| e.tag != e.range);
+        let Some(root) = root else {
+            return Err(PptxError::InvalidXml("no presentation".to_string()));
+        };
+        let used: HashSet<u32> = elements(xml, "sldIdLst")
+            .into_iter()
+            .flat_map(|list| {
+                let list = &xml[list.range];
+                let ids = elements(list, "sldId").into_iter().map(|e| attribute(&list[e.tag], "id"));
+                ids.collect::<Vec<_>>()
+            })
+            .filter_map(|id| id?.trim().parse().ok())
+            .collect();
+        let id = std::iter::once(self.find_max_slide_id(xml).max(255).saturating_add(1))
+            .chain(256..)
+            .find(|id| *id < 0x8000_0000 && !used.contains(id))
+            .unwrap_or_default();
+
+        let entry = |prefix: &str| format!("<{prefix}sldId id=\"{id}\" r:id=\"{rel_id}\"/>");
+        let edited = match list_element(xml) {
+            Some(list) => append_child(xml, &list, entry),
+            None => {
+                // Insert sldIdLst after the lists of masters
+                let position = ["handoutMasterIdLst", "notesMasterIdLst", "sldMasterIdLst"]
+                    .iter()
+                    .find_map(|name| elements(xml, name).first().map(|e| e.range.end))
+                    .unwrap_or(root.tag.end);
+                let tag = &xml[root.tag];
+                let prefix = tag[1..].split("presentation").next().unwrap_or_default();
+                let list = format!("<{prefix}sldIdLst>{}</{prefix}sldIdLst>", entry(prefix));
+                [&xml[..position], &list, &xml[position..]].concat()
+            }
+        };
+        self.put(PRESENTATION, edited);
         Ok(())
     }
 
     fn find_max_rel_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: Id="rId(\d+)"
-        let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("Id=\"rId") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 7; // Skip "Id=\"rId"
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
-            }
-        }
-        max_id
+        relationship_ids(xml)
+            .iter()
+            .filter_map(|id| id.strip_prefix("rId")?.parse().ok())
+            .max()
+            .unwrap_or(0)
     }
 
     fn find_max_slide_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: <p:sldId id="(\d+)"
-        let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("<p:sldId id=\"") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 13; // Skip "<p:sldId id=\""
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
-            }
-        }
-        max_id
+        let list = list_element(xml).map_or("", |list| &xml[list.range]);
+        elements(list, "sldId")
+            .into_iter()
+            .filter_map(|e| attribute(&list[e.tag], "id")?.trim().parse().ok())
+            .max()
+            .unwrap_or(0)
     }
 
     fn repair_orphan_slide(&mut self, slide_path: &str) -> Result<()> {
-        // Remove the orphan reference from presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Find and remove the relationship
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&format!("Target=\"{}\"", slide_target)))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
+        let rels = self.xml(PRESENTATION_RELS).unwrap_or_default();
+        let leads_there = |tag: &str| {
+            internal_target(PRESENTATION_RELS, tag).as_deref() == Some(slide_path)
+        };
+        let ids: Vec<String> = elements(rels, "Relationship")
+            .into_iter()
+            .filter(|e| leads_there(&rels[e.tag.clone()]))
+            .filter_map(|e| attribute(&rels[e.tag], "Id"))
+            .collect();
+        for id in ids {
+            self.repair_broken_relationship(PRESENTATION_RELS, slide_path, &id)?;
         }
         Ok(())
     }
 
     fn repair_invalid_content_type(&mut self, path: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Determine content type based on path
-            let content_type = self.infer_content_type(path);
-
-            // Add Override entry
-            let new_override = format!(
-                "  <Override PartName=\"/{}\" ContentType=\"{}\"/>",
-                path, content_type
-            );
-
-            let repaired = xml_str.replace("</Types>", &format!("{}\n</Types>", new_override));
-            self.package
-                .add_part("[Content_Types].xml".to_string(), repaired.into_bytes());
-        }
+        let Some(types) = self.xml(CONTENT_TYPES) else {
+            return Ok(());
+        };
+        let content_type = self.infer_content_type(path);
+        let overrides = elements(types, "Override");
+        let declared = overrides.into_iter().find(|e| names_part(&types[e.tag.clone()], path));
+        let edited = match declared {
+            Some(e) => {
+                let tag = set_attribute(&types[e.tag.clone()], "ContentType", content_type);
+                [&types[..e.tag.start], &tag, &types[e.tag.end..]].concat()
+            }
+            None => {
+                let Some(root) = elements(types, "Types").into_iter().next() else {
+                    return Err(PptxError::InvalidXml("no content types".to_string()));
+                };
+                let (kind, name) = match path.strip_suffix(".rels") {
+                    Some(_) if declared_type(types, path).is_some() => return Ok(()),
+                    Some(_) => ("Default", "Extension=\"rels\"".to_string()),
+                    None => ("Override", format!("PartName=\"/{}\"", escape_xml(path))),
+                };
+                append_child(types, &root, |prefix| {
+                    format!("<{prefix}{kind} {name} ContentType=\"{content_type}\"/>")
+                })
+            }
+        };
+        self.put(CONTENT_TYPES, edited);
         Ok(())
     }
 
     fn infer_content_type(&self, path: &str) -> &'static str {
-        if path.contains("slideLayout") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"
-        } else if path.contains("slideMaster") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"
-        } else if path.contains("notesSlide") {
-            "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"
-        } else if path.starts_with("ppt/slides/slide") && path.ends_with(".xml") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slide+xml"
-        } else if path.contains("theme") {
-            "application/vnd.openxmlformats-officedocument.theme+xml"
-        } else if path.contains("presentation.xml") {
-            "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"
-        } else if path.ends_with(".xml") {
-            "application/xml"
-        } else {
-            "application/octet-stream"
-        }
+        let known = PART_TYPES.iter().find(|(start, _)| {
+            path.strip_prefix(start).is_some_and(|rest| {
+                rest.strip_suffix(".xml").is_some_and(|n| n.bytes().all(|b| b.is_ascii_digit()))
+            })
+        });
+        let extension = path.rsplit('.').next().unwrap_or_default().to_lowercase();
+        known
+            .map(|(_, content_type)| *content_type)
+            .or_else(|| {
+                let by_extension = EXTENSION_TYPES.iter().find(|(ext, _)| *ext == extension);
+                by_extension.map(|(_, content_type)| *content_type)
+            })
+            .unwrap_or("application/octet-stream")
     }
 
     fn repair_missing_namespace(&mut self, path: &str, namespace: &str) -> Result<()> {
@@ -835,12 +921,14 @@ impl PptxRepair {
         );
 
         // Add overrides for existing parts
-        for path in self.package.part_paths() {
-            if path.ends_with(".xml") && path != "[Content_Types].xml" {
-                let ct = self.infer_content_type(path);
+        for path in self.sorted_paths() {
+            let extension = path.rsplit('.').next().unwrap_or_default();
+            if path != CONTENT_TYPES && !["rels", "jpeg", "png"].contains(&extension) {
+                let ct = self.infer_content_type(&path);
                 content.push_str(&format!(
                     "  <Override PartName=\"/{}\" ContentType=\"{}\"/>\n",
-                    path, ct
+                    escape_xml(&path),
+                    ct
                 ));
             }
         }
@@ -850,35 +938,262 @@ impl PptxRepair {
     }
 
     fn generate_package_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        let mut rels = String::from(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
   <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="ppt/presentation.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" Target="docProps/core.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties" Target="docProps/app.xml"/>
-</Relationships>"#.to_string()
+"#,
+        );
+        let core = CORE_PROPERTIES_TYPE.to_string();
+        let extended = format!("{RELATIONSHIP_TYPE}/extended-properties");
+        let custom = format!("{RELATIONSHIP_TYPE}/custom-properties");
+        let properties = [
+            ("rId2", core, "docProps/core.xml"),
+            ("rId3", extended, "docProps/app.xml"),
+            ("rId4", custom, "docProps/custom.xml"),
+        ];
+        for (id, kind, path) in properties {
+            if self.package.has_part(path) {
+                rels.push_str(&format!(
+                    "  <Relationship Id=\"{id}\" Type=\"{kind}\" Target=\"{path}\"/>\n"
+                ));
+            }
+        }
+        rels.push_str("</Relationships>");
+        rels
     }
 
+    /// Make presentation.xml from the relationships of the presentation
     fn generate_presentation_xml(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        let rels = self.xml(PRESENTATION_RELS).unwrap_or_default();
+        let mut taken: HashSet<u64> = self
+            .parts_in("ppt/slideMasters/")
+            .iter()
+            .filter_map(|path| self.xml(path))
+            .flat_map(|xml| {
+                let layouts = elements(xml, "sldLayoutId").into_iter();
+                layouts.map(|e| attribute(&xml[e.tag], "id")).collect::<Vec<_>>()
+            })
+            .filter_map(|id| id?.parse().ok())
+            .collect();
+        let mut lists = [String::new(), String::new(), String::new(), String::new()];
+        for element in elements(rels, "Relationship") {
+            let tag = &rels[element.tag];
+            let (Some(kind), Some(id)) = (attribute(tag, "Type"), attribute(tag, "Id")) else {
+                continue;
+            };
+            let exists = internal_target(PRESENTATION_RELS, tag)
+                .is_some_and(|target| self.package.has_part(&target));
+            let kind = kind.rsplit('/').next();
+            let list = PRESENTATION_LISTS.iter().position(|(_, k, _)| Some(*k) == kind);
+            let Some(list) = list.filter(|_| exists) else {
+                continue;
+            };
+            let name = PRESENTATION_LISTS[list].0;
+            let id = escape_xml(&id);
+            let number = match name {
+                "sldMasterId" => (0x8000_0000..).find(|n| taken.insert(*n)),
+                "sldId" => (256..).find(|n| taken.insert(*n)),
+                _ => None,
+            };
+            let number = number.map(|n| format!(" id=\"{n}\"")).unwrap_or_default();
+            lists[list].push_str(&format!("<p:{name}{number} r:id=\"{id}\"/>"));
+        }
+        let [masters, notes, handouts, slides] = lists;
+        let optional = |name: &str, list: String| match list.as_str() {
+            "" => String::new(),
+            list => format!("\n  <p:{name}>{list}</p:{name}>"),
+        };
+        format!(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
-  <p:sldMasterIdLst>
-    <p:sldMasterId id="2147483648" r:id="rId1"/>
-  </p:sldMasterIdLst>
-  <p:sldIdLst/>
+  <p:sldMasterIdLst>{masters}</p:sldMasterIdLst>{}{}
+  <p:sldIdLst>{slides}</p:sldIdLst>
   <p:sldSz cx="9144000" cy="6858000"/>
   <p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#.to_string()
+</p:presentation>"#,
+            optional("notesMasterIdLst", notes),
+            optional("handoutMasterIdLst", handouts),
+        )
     }
 
+    /// Make the relationships of the presentation from its references and parts
     fn generate_presentation_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideMaster" Target="slideMasters/slideMaster1.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme" Target="theme/theme1.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/presProps" Target="presProps.xml"/>
-  <Relationship Id="rId4" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/viewProps" Target="viewProps.xml"/>
-  <Relationship Id="rId5" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/tableStyles" Target="tableStyles.xml"/>
-</Relationships>"#.to_string()
+        self.completed_presentation_rels(EMPTY_RELS)
+    }
+
+    /// Add the relationships that presentation.xml refers to
+    fn complete_presentation_rels(&mut self) {
+        if let Some(rels) = self.xml(PRESENTATION_RELS) {
+            let completed = self.completed_presentation_rels(rels);
+            self.put(PRESENTATION_RELS, completed);
+        }
+    }
+
+    fn completed_presentation_rels(&self, rels: &str) -> String {
+        let mut rels = rels.to_string();
+        let known = relationship_ids(&rels);
+        let targets: HashSet<String> = elements(&rels, "Relationship")
+            .into_iter()
+            .filter_map(|e| internal_target(PRESENTATION_RELS, &rels[e.tag]))
+            .collect();
+        let presentation = self.xml(PRESENTATION);
+        let mut taken: HashSet<String> =
+            presentation.map(|xml| tags(xml).into_iter().flat_map(|t| references(&xml[t])).map(|(_, id)| id).collect()).unwrap_or_default();
+        taken.extend(known.iter().cloned());
+        let mut fresh = || {
+            let id = (1u64..).map(|n| format!("rId{n}")).find(|id| !taken.contains(id));
+            let id = id.unwrap_or_default();
+            taken.insert(id.clone());
+            id
+        };
+
+        for (name, kind, folder) in PRESENTATION_LISTS {
+            let mut parts = self.parts_in(folder);
+            parts.retain(|path| !targets.contains(path));
+            match presentation {
+                Some(xml) => {
+                    let mut ids: Vec<String> = Vec::new();
+                    for element in elements(xml, name) {
+                        let id = relationship_id(&xml[element.tag]);
+                        if let Some(id) = id.filter(|id| !known.contains(id) && !ids.contains(id)) {
+                            ids.push(id);
+                        }
+                    }
+                    for (id, path) in ids.iter().zip(&parts) {
+                        rels = add_relationship(&rels, PRESENTATION, id, kind, path);
+                    }
+                }
+                None => {
+                    for path in &parts {
+                        rels = add_relationship(&rels, PRESENTATION, &fresh(), kind, path);
+                    }
+                }
+            }
+        }
+        for (kind, path) in PRESENTATION_EXTRAS {
+            if self.package.has_part(path) && !targets.contains(path) {
+                rels = add_relationship(&rels, PRESENTATION, &fresh(), kind, path);
+            }
+        }
+        rels
+    }
+}
+
+/// Content types of parts, by their names without number and extension
+const PART_TYPES: [(&str, &str); 20] = [
+    ("ppt/presentation", "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"),
+    ("ppt/slides/slide", "application/vnd.openxmlformats-officedocument.presentationml.slide+xml"),
+    ("ppt/slideLayouts/slideLayout", "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"),
+    ("ppt/slideMasters/slideMaster", "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"),
+    ("ppt/notesSlides/notesSlide", "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"),
+    ("ppt/notesMasters/notesMaster", "application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml"),
+    ("ppt/handoutMasters/handoutMaster", "application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml"),
+    ("ppt/theme/theme", "application/vnd.openxmlformats-officedocument.theme+xml"),
+    ("ppt/charts/chart", "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"),
+    ("ppt/presProps", "application/vnd.openxmlformats-officedocument.presentationml.presProps+xml"),
+    ("ppt/viewProps", "application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml"),
+    ("ppt/tableStyles", "application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml"),
+    ("ppt/commentAuthors", "application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml"),
+    ("ppt/comments/comment", "application/vnd.openxmlformats-officedocument.presentationml.comments+xml"),
+    ("ppt/tags/tag", "application/vnd.openxmlformats-officedocument.presentationml.tags+xml"),
+    ("ppt/ink/ink", "application/vnd.openxmlformats-officedocument.presentationml.ink+xml"),
+    ("docProps/core", "application/vnd.openxmlformats-package.core-properties+xml"),
+    ("docProps/app", "application/vnd.openxmlformats-officedocument.extended-properties+xml"),
+    ("docProps/custom", "application/vnd.openxmlformats-officedocument.custom-properties+xml"),
+    ("_xmlsignatures/sig", "application/vnd.openxmlformats-package.digital-signature-xmlsignature+xml"),
+];
+
+/// Content types of parts, by extension
+const EXTENSION_TYPES: [(&str, &str); 26] = [
+    ("rels", "application/vnd.openxmlformats-package.relationships+xml"),
+    ("xml", "application/xml"),
+    ("png", "image/png"),
+    ("jpg", "image/jpeg"),
+    ("jpeg", "image/jpeg"),
+    ("gif", "image/gif"),
+    ("bmp", "image/bmp"),
+    ("tif", "image/tiff"),
+    ("tiff", "image/tiff"),
+    ("svg", "image/svg+xml"),
+    ("webp", "image/webp"),
+    ("emf", "image/x-emf"),
+    ("wmf", "image/x-wmf"),
+    ("mp4", "video/mp4"),
+    ("mov", "video/quicktime"),
+    ("avi", "video/x-msvideo"),
+    ("wmv", "video/x-ms-wmv"),
+    ("webm", "video/webm"),
+    ("mp3", "audio/mpeg"),
+    ("wav", "audio/wav"),
+    ("m4a", "audio/mp4"),
+    ("fntdata", "application/x-fontdata"),
+    ("xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"),
+    ("vml", "application/vnd.openxmlformats-officedocument.vmlDrawing"),
+    ("sigs", "application/vnd.openxmlformats-package.digital-signature-origin"),
+    ("bin", "application/vnd.openxmlformats-officedocument.oleObject"),
+];
+
+/// Identifiers of relationships
+fn relationship_ids(rels: &str) -> HashSet<String> {
+    let relationships = elements(rels, "Relationship").into_iter();
+    relationships.filter_map(|e| attribute(&rels[e.tag], "Id")).collect()
+}
+
+/// Attributes of a start tag that refer to relationships
+fn references(tag: &str) -> Vec<(String, String)> {
+    let mut references = attributes(tag);
+    references.retain(|(name, id)| name.starts_with("r:") && !id.is_empty());
+    references
+}
+
+/// Relationships of a part with one more
+fn add_relationship(rels: &str, from: &str, id: &str, kind: &str, path: &str) -> String {
+    let Some(root) = elements(rels, "Relationships").into_iter().next() else {
+        return rels.to_string();
+    };
+    let (id, target) = (escape_xml(id), escape_xml(&relative_target(from, path)));
+    append_child(rels, &root, |prefix| {
+        format!(
+            "<{prefix}Relationship Id=\"{id}\" Type=\"{RELATIONSHIP_TYPE}/{kind}\" Target=\"{target}\"/>"
+        )
+    })
+}
+
+/// Whether an `<Override>` is about a part
+fn names_part(tag: &str, path: &str) -> bool {
+    attribute(tag, "PartName")
+        .is_some_and(|name| name.trim_start_matches('/').eq_ignore_ascii_case(path))
+}
+
+/// Content type that is declared for a part
+fn declared_type(types: &str, path: &str) -> Option<String> {
+    let extension = path.rsplit('.').next().unwrap_or_default();
+    let is_extension = |tag: &str| {
+        attribute(tag, "Extension").is_some_and(|e| e.eq_ignore_ascii_case(extension))
+    };
+    let find = |name: &str, matches: &dyn Fn(&str) -> bool| {
+        let tags = elements(types, name).into_iter().map(|e| &types[e.tag]);
+        tags.into_iter().find(|tag| matches(tag)).and_then(|tag| attribute(tag, "ContentType"))
+    };
+    find("Override", &|tag| names_part(tag, path)).or_else(|| find("Default", &is_extension))
+}
+
+/// Whether a text begins with a reference to a character
+fn is_entity(text: &str) -> bool {
+    let Some((name, _)) = text[1..].split_once(';') else {
+        return false;
+    };
+    let digits = |text: &str, hex: bool| {
+        let digit = |c: char| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
+        !text.is_empty() && text.chars().all(digit)
+    };
+    match name.strip_prefix('#') {
+        Some(number) => match number.strip_prefix('x') {
+            Some(number) => digits(number, true),
+            None => digits(number, false),
+        },
+        None => ["amp", "lt", "gt", "quot", "apos"].contains(&name),
     }
 }
 
-- 
2.43.0


From c71dd677470b0438fb55083d5b35e95d556d5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 16/33] fix: lay out Mermaid flowchart and ER diagram nodes in
 order of appearance

The nodes were kept in a HashMap, so the same source gave another layout
on every run.
---
 src/cli/markdown/mermaid/er_diagram.rs | 24 +++++++++++++-----------
 src/cli/markdown/mermaid/flowchart.rs  | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/cli/markdown/mermaid/er_diagram.rs b/src/cli/markdown/mermaid/er_diagram.rs
index ef1ab15..4a8c225 100644
--- a/src/cli/markdown/mermaid/er_diagram.rs
+++ b/src/cli/markdown/mermaid/er_diagram.rs
@@ -7,12 +7,20 @@ use crate::generator::connectors::{
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// Add an entity unless it is already known
+fn add_entity(entities: &mut Vec<(String, Vec<String>)>, name: &str) {
+    if !entities.iter().any(|(n, _)| n == name) {
+        entities.push((name.to_string(), Vec::new()));
+    }
+}
+
 /// Generate shapes and connectors for an ER diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut entities: HashMap<String, Vec<String>> = HashMap::new();
+    // In order of first appearance, which is also the order of the layout
+    let mut entities: Vec<(String, Vec<String>)> = Vec::new();
     let mut relationships: Vec<(String, String, String)> = Vec::new();
     let mut current_entity = String::new();
 
@@ -44,23 +52,17 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             if parts.len() >= 2 {
                 let e1 = parts[0].trim().to_string();
                 let e2 = parts[parts.len() - 1].trim().to_string();
-                if !entities.contains_key(&e1) {
-                    entities.insert(e1.clone(), Vec::new());
-                }
-                if !entities.contains_key(&e2) {
-                    entities.insert(e2.clone(), Vec::new());
-                }
+                add_entity(&mut entities, &e1);
+                add_entity(&mut entities, &e2);
                 relationships.push((e1, e2, label));
             }
         } else if line.contains('{') {
             current_entity = line.split('{').next().unwrap_or("").trim().to_string();
-            if !entities.contains_key(&current_entity) {
-                entities.insert(current_entity.clone(), Vec::new());
-            }
+            add_entity(&mut entities, &current_entity);
         } else if line == "}" {
             current_entity.clear();
         } else if !current_entity.is_empty() && !line.is_empty() {
-            if let Some(attrs) = entities.get_mut(&current_entity) {
+            if let Some((_, attrs)) = entities.iter_mut().find(|(n, _)| *n == current_entity) {
                 attrs.push(line.to_string());
             }
         }
diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index 3cae060..25852aa 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -21,13 +21,21 @@ fn parse_direction(first_line: &str) -> FlowDirection {
     }
 }
 
+/// Add a node unless one with its id is already known
+fn add_node(nodes: &mut Vec<FlowNode>, node: FlowNode) {
+    if !nodes.iter().any(|n| n.id == node.id) {
+        nodes.push(node);
+    }
+}
+
 /// Parse a flowchart from Mermaid code
 pub fn parse(code: &str) -> Flowchart {
     let mut lines = code.lines();
     let first_line = lines.next().unwrap_or("");
     let direction = parse_direction(first_line);
 
-    let mut nodes: HashMap<String, FlowNode> = HashMap::new();
+    // In order of first appearance, which is also the order of the layout
+    let mut nodes: Vec<FlowNode> = Vec::new();
     let mut connections: Vec<FlowConnection> = Vec::new();
     let mut subgraphs: Vec<Subgraph> = Vec::new();
     let mut current_subgraph: Option<Subgraph> = None;
@@ -67,7 +75,7 @@ pub fn parse(code: &str) -> Flowchart {
             // Parse from node
             let (from_id, from_node) = parse_node_def(&from_part);
             if let Some(node) = from_node {
-                nodes.entry(from_id.clone()).or_insert(node);
+                add_node(&mut nodes, node);
                 if let Some(ref mut sg) = current_subgraph {
                     if !sg.nodes.contains(&from_id) {
                         sg.nodes.push(from_id.clone());
@@ -79,7 +87,7 @@ pub fn parse(code: &str) -> Flowchart {
             let (to_part_clean, arrow_label) = extract_arrow_label(&to_part);
             let (to_id, to_node) = parse_node_def(&to_part_clean);
             if let Some(node) = to_node {
-                nodes.entry(to_id.clone()).or_insert(node);
+                add_node(&mut nodes, node);
                 if let Some(ref mut sg) = current_subgraph {
                     if !sg.nodes.contains(&to_id) {
                         sg.nodes.push(to_id.clone());
@@ -97,7 +105,7 @@ pub fn parse(code: &str) -> Flowchart {
             // Standalone node definition
             let (id, node) = parse_node_def(line);
             if let Some(n) = node {
-                nodes.entry(id.clone()).or_insert(n);
+                add_node(&mut nodes, n);
                 if let Some(ref mut sg) = current_subgraph {
                     if !sg.nodes.contains(&id) {
                         sg.nodes.push(id);
@@ -109,7 +117,7 @@ pub fn parse(code: &str) -> Flowchart {
 
     Flowchart {
         direction,
-        nodes: nodes.into_values().collect(),
+        nodes,
         connections,
         subgraphs,
     }
-- 
2.43.0


From 5655eb7900d13cd1233510a30973fa6f5cd58f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:53 +0000
Subject: [PATCH 17/33] fix: compression removes comments when asked and keeps
 significant whitespace

remove_comments had no effect. Whitespace in mixed content, under
xml:space="preserve" or beside comments and CDATA was dropped, and
relationship parts of media files were counted as media.
---
 src/opc/compress.rs | 45 ++++++++++++++++++++++++++++++--
 src/opc/xml_edit.rs | 62 +++++++++++++++++++++++++++++++++++++--------
 2 files changed, 95 insertions(+), 12 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bedae17..436f084 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -240,6 +240,11 @@ pub fn compress_pptx_in_memory(
         remove_notes_slides(&mut package);
     }
 
+    // Remove comments if requested
+    if options.remove_comments {
+        remove_comments(&mut package);
+    }
+
     // Remove unused media files
     if options.remove_unused_media {
         unused_media_removed = remove_unused_media(&mut package);
@@ -338,7 +343,8 @@ fn remove_unused_media(package: &mut Package) -> usize {
     let unused: HashSet<String> = package
         .part_paths()
         .iter()
-        .filter(|p| p.starts_with("ppt/media/") && !related.contains(**p))
+        .filter(|p| p.starts_with("ppt/media/") && rels_source(p).is_none())
+        .filter(|p| !related.contains(**p))
         .map(|s| s.to_string())
         .collect();
 
@@ -369,6 +375,41 @@ fn remove_notes_slides(package: &mut Package) {
     remove_parts(package, &notes);
 }
 
+/// Remove comments and the list of their authors
+fn remove_comments(package: &mut Package) {
+    let comments: HashSet<String> = package
+        .part_paths()
+        .iter()
+        .filter(|p| {
+            p.starts_with("ppt/comments/")
+                || matches!(**p, "ppt/commentAuthors.xml" | "ppt/authors.xml")
+        })
+        .filter(|p| rels_source(p).is_none())
+        .map(|s| s.to_string())
+        .collect();
+    if comments.is_empty() {
+        return;
+    }
+
+    remove_parts(package, &comments);
+
+    // Slides name the relationship to their threaded comments
+    let slides: Vec<String> = package
+        .part_paths()
+        .iter()
+        .filter(|p| p.starts_with("ppt/slides/") && rels_source(p).is_none())
+        .map(|s| s.to_string())
+        .collect();
+    for path in slides {
+        if let Some(xml) = package.get_part(&path).and_then(|b| std::str::from_utf8(b).ok()) {
+            let edited = remove_elements(xml, "commentRel", |_| true);
+            if edited != xml {
+                package.add_part(path, edited.into_bytes());
+            }
+        }
+    }
+}
+
 /// Optimize XML content (minimize whitespace)
 fn optimize_xml_content(package: &mut Package) {
     let xml_paths: Vec<String> = package
@@ -414,7 +455,7 @@ pub(crate) fn analyze_pptx_bytes(data: &[u8]) -> Result<PptxAnalysis> {
         if let Some(data) = package.get_part(part_path) {
             let size = data.len();
 
-            if part_path.starts_with("ppt/media/") {
+            if part_path.starts_with("ppt/media/") && rels_source(part_path).is_none() {
                 let extension = part_path.rsplit('.').next().unwrap_or("").to_lowercase();
                 if IMAGE_EXTENSIONS.contains(&extension.as_str()) {
                     images_size += size;
diff --git a/src/opc/xml_edit.rs b/src/opc/xml_edit.rs
index 86571fa..023fed0 100644
--- a/src/opc/xml_edit.rs
+++ b/src/opc/xml_edit.rs
@@ -271,22 +271,64 @@ pub(crate) fn internal_target(rels_path: &str, tag: &str) -> Option<String> {
 
 /// XML text without the whitespace between its elements
 ///
-/// Text inside an element that has no child elements is content and kept.
+/// Whitespace is content, and kept, in an element that has no child elements,
+/// that holds other text too, or that asks for it with `xml:space`.
 pub(crate) fn strip_whitespace(xml: &str) -> String {
-    let mut result = String::with_capacity(xml.len());
+    struct Open {
+        has_children: bool,
+        has_text: bool,
+        preserve: bool,
+        gaps: Vec<Range<usize>>,
+    }
+    let blank = |text: &str| text.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n'));
+
+    let mut open: Vec<Open> = Vec::new();
+    let mut dropped: Vec<Range<usize>> = Vec::new();
     let mut pos = 0;
-    let mut after_start_tag = false;
     while let Some(markup) = next_markup(xml, pos) {
-        let gap = &xml[pos..markup.start];
+        let gap = pos..markup.start;
         let text = &xml[markup.clone()];
-        let leaf = after_start_tag && text.starts_with("</");
-        if leaf || !gap.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) {
-            result.push_str(gap);
+        match open.last_mut() {
+            Some(parent) if blank(&xml[gap.clone()]) => parent.gaps.push(gap),
+            Some(parent) => parent.has_text = true,
+            None if blank(&xml[gap.clone()]) => dropped.push(gap),
+            None => {}
+        }
+        if tag_name(text).is_none() {
+            if let (true, Some(parent)) = (text.starts_with("<![CDATA["), open.last_mut()) {
+                parent.has_text = true;
+            }
+        } else if text.starts_with("</") {
+            if let Some(element) = open.pop()
+                && element.has_children
+                && !element.has_text
+                && !element.preserve
+            {
+                dropped.extend(element.gaps);
+            }
+        } else {
+            let inherited = open.last().is_some_and(|parent| parent.preserve);
+            if let Some(parent) = open.last_mut() {
+                parent.has_children = true;
+            }
+            if !text.ends_with("/>") {
+                let preserve = match attribute(text, "xml:space") {
+                    Some(space) => space == "preserve",
+                    None => inherited,
+                };
+                open.push(Open { has_children: false, has_text: false, preserve, gaps: Vec::new() });
+            }
         }
-        result.push_str(text);
-        after_start_tag = tag_name(text).is_some() && !text.starts_with("</") && !text.ends_with("/>");
         pos = markup.end;
     }
-    result.push_str(xml[pos..].trim_end());
+
+    dropped.sort_by_key(|gap| gap.start);
+    let mut result = String::with_capacity(xml.len());
+    let mut from = 0;
+    for gap in dropped {
+        result.push_str(&xml[from..gap.start]);
+        from = gap.end;
+    }
+    result.push_str(xml[from..].trim_end());
     result
 }
-- 
2.43.0


From ee1eb9b0d1634a44e723ac6a548558afaa83dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:22 +0000
Subject: [PATCH 18/33] fix: read whitespace-only texts and all runs of a table
 cell

The XML reader ignored text that consists of whitespace, and only the
first run of a table cell was read.
---
 src/oxml/slide.rs    | 18 +++++++++++++++---
 src/oxml/xmlchemy.rs |  8 ++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index b139c0c..0ae45c2 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -298,6 +298,15 @@ impl SlideParser {
         paragraphs
     }
 
+    /// Text of all runs of a paragraph
+    fn paragraph_text(p: &XmlElement) -> String {
+        p.find_all("r")
+            .into_iter()
+            .filter_map(|r| r.find("t"))
+            .map(|t| t.text_content())
+            .collect()
+    }
+
     fn is_title_shape(sp: &XmlElement) -> bool {
         // Check placeholder type first
         if let Some(nv_pr) = sp.find_descendant("nvPr")
@@ -347,9 +356,12 @@ impl SlideParser {
             let mut row = Vec::new();
             for tc in tr.find_all("tc") {
                 let text = tc
-                    .find_descendant("t")
-                    .map(|t| t.text_content())
-                    .unwrap_or_default();
+                    .find("txBody")
+                    .map(|tx_body| {
+                        tx_body.find_all("p").into_iter().map(Self::paragraph_text).collect::<Vec<_>>()
+                    })
+                    .unwrap_or_default()
+                    .join("\n");
 
                 let row_span = tc.attr("rowSpan").and_then(|v| v.parse().ok()).unwrap_or(1);
                 let col_span = tc
diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 0404cb8..c7e241c 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -169,7 +169,11 @@ impl XmlParser {
                     stack.push(element);
                 }
                 Ok(XmlEvent::EndElement { .. }) => {
-                    if let Some(element) = stack.pop() {
+                    if let Some(mut element) = stack.pop() {
+                        // Whitespace between child elements is not content
+                        if !element.children.is_empty() && element.text.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) {
+                            element.text.clear();
+                        }
                         if let Some(parent) = stack.last_mut() {
                             parent.add_child(element);
                         } else {
@@ -177,7 +181,7 @@ impl XmlParser {
                         }
                     }
                 }
-                Ok(XmlEvent::Characters(text)) => {
+                Ok(XmlEvent::Characters(text)) | Ok(XmlEvent::Whitespace(text)) => {
                     if let Some(current) = stack.last_mut() {
                         current.text.push_str(&text);
                     }
-- 
2.43.0


From de0ef2f0ac85cf02bed7a9d534d849e6a37f60df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 19/33] fix: apply the fetch timeout to the whole fetch

---
 src/web2ppt/fetcher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/web2ppt/fetcher.rs b/src/web2ppt/fetcher.rs
index aa67f6b..f822f6f 100644
--- a/src/web2ppt/fetcher.rs
+++ b/src/web2ppt/fetcher.rs
@@ -53,6 +53,9 @@ impl WebFetcher {
         let response = self.client
             .get(url)
             .header("Referer", url)
+            // The client's timeout applies to the headers and the body one after
+            // the other; the request's own covers the whole fetch.
+            .timeout(Duration::from_secs(self.config.timeout_secs))
             .send()
             .map_err(|e| Web2PptError::FetchError(e.to_string()))?;
 
-- 
2.43.0


From d48b4ec2dc950468972cbf8ced7cd484deb1275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 20/33] fix: format detection of images shorter than six bytes

---
 src/generator/images.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1059aca..2cd3603 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -482,7 +482,7 @@ impl ImageBuilder {
                 "PNG"
             } else if data.len() >= 2 && &data[0..2] == b"\xFF\xD8" {
                 "JPEG"
-            } else if data.len() >= 6 && &data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a" {
+            } else if data.starts_with(b"GIF89a") || data.starts_with(b"GIF87a") {
                 "GIF"
             } else {
                 "PNG" // default
-- 
2.43.0


From 230a066f8ff6f7033a3be76766207522460b2a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 21/33] fix: void elements inside skipped HTML elements no
 longer hide the rest of the page

---
 src/import/html.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 34126f6..9786cc1 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -635,12 +635,18 @@ impl HtmlSlideParser {
         for event in events {
             match event {
                 HtmlEvent::OpenTag { name, attrs } => {
-                    self.tag_stack.push(name.clone());
+                    // Void elements have no closing tag that would remove them again
+                    if !VOID_TAGS.contains(&name.as_str()) {
+                        self.tag_stack.push(name.clone());
+                    }
                     self.handle_open_tag(name, attrs);
                 }
                 HtmlEvent::CloseTag(name) => {
                     self.handle_close_tag(name);
-                    self.tag_stack.pop();
+                    // Elements left open inside this one end with it
+                    if let Some(open) = self.tag_stack.iter().rposition(|t| t == name) {
+                        self.tag_stack.truncate(open);
+                    }
                 }
                 HtmlEvent::Text(text) => {
                     self.handle_text(text);
-- 
2.43.0


From 4c33fb49f82104b4c9c4beb0c2c5b00b1d4264ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 22/33] fix: keep images inside a level-one heading

---
 src/cli/markdown/parser.rs | 8 +++++++-
 src/import/html.rs         | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index e6afe33..a4712a7 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -115,7 +115,13 @@ impl MarkdownParser {
             Event::End(TagEnd::Heading(level)) => {
                 let title = std::mem::take(&mut self.current_text).trim().to_string();
                 if level == HeadingLevel::H1 {
-                    self.current_slide = Some(SlideContent::new(&title));
+                    // Images inside the heading have already started its slide
+                    let mut slide = SlideContent::new(&title);
+                    if let Some(started) = self.current_slide.take() {
+                        slide.images = started.images;
+                        slide.shapes = started.shapes;
+                    }
+                    self.current_slide = Some(slide);
                 } else if let Some(ref mut slide) = self.current_slide {
                     let formatted = format!("**{}**", title);
                     *slide = slide.clone().add_bullet(&formatted);
diff --git a/src/import/html.rs b/src/import/html.rs
index 9786cc1..9a362f2 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -784,6 +784,12 @@ impl HtmlSlideParser {
                     if let Some(ref fs) = s.font_style && is_font_style_italic(fs) { slide = slide.title_italic(true); }
                     if let Some(ref td) = s.text_decoration && td.contains("underline") { slide = slide.title_underline(true); }
                 }
+                // Images inside the heading have already started its slide
+                if let Some(started) = self.current_slide.take() {
+                    slide.images = started.images;
+                    slide.content = started.content;
+                    slide.bullets = started.bullets;
+                }
                 self.current_slide = Some(slide);
             }
             "h2" | "h3" | "h4" | "h5" | "h6" => {
-- 
2.43.0


From b54ee26221abbdd04168777cc62f0ddc37d95d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:10 +0000
Subject: [PATCH 23/33] fix: load local images from regular files only

---
 src/cli/markdown/parser.rs | 2 +-
 src/import/html.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index a4712a7..bd4d72c 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -569,7 +569,7 @@ impl MarkdownParser {
         } else {
             // Try to load from local file path
             let path = Path::new(url);
-            if path.exists() {
+            if path.is_file() {
                 if let Ok(bytes) = std::fs::read(path) {
                     let img = ImageBuilder::auto(bytes)
                         .at(2000000, 2000000)
diff --git a/src/import/html.rs b/src/import/html.rs
index 9a362f2..31bfd52 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -1045,7 +1045,7 @@ impl HtmlSlideParser {
         } else {
             // Try to load from local file path
             let path = Path::new(src);
-            if path.exists()
+            if path.is_file()
                 && let Ok(bytes) = std::fs::read(path) {
                     let img = ImageBuilder::auto(bytes)
                         .at(2000000, 2000000)
-- 
2.43.0


From 5f92d8c58328b5f60f80f15ae3536e26f7cb787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:11 +0000
Subject: [PATCH 24/33] fix: info fails for files it cannot read

---
 src/cli/commands.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/cli/commands.rs b/src/cli/commands.rs
index cd86486..b03a1c5 100644
--- a/src/cli/commands.rs
+++ b/src/cli/commands.rs
@@ -151,25 +151,33 @@ impl InfoCommand {
         let is_file = metadata.is_file();
         println!("Is file:  {is_file}");
 
-        // Try to read and parse as XML
-        if let Ok(content) = fs::read_to_string(file) {
-            if content.starts_with("<?xml") {
-                println!("\nPresentation Information");
-                println!("========================");
-                if let Some(title_start) = content.find("<title>") {
-                    if let Some(title_end) = content[title_start + 7..].find("</title>") {
-                        let title = &content[title_start + 7..title_start + 7 + title_end];
-                        println!("Title: {title}");
-                    }
+        let bytes = fs::read(file).map_err(|e| format!("Failed to read file: {e}"))?;
+
+        if let Some(content) = std::str::from_utf8(&bytes).ok().filter(|c| c.starts_with("<?xml")) {
+            println!("\nPresentation Information");
+            println!("========================");
+            if let Some(title_start) = content.find("<title>") {
+                if let Some(title_end) = content[title_start + 7..].find("</title>") {
+                    let title = &content[title_start + 7..title_start + 7 + title_end];
+                    println!("Title: {title}");
                 }
-                if let Some(slides_start) = content.find("count=\"") {
-                    let search_from = slides_start + 7;
-                    if let Some(slides_end) = content[search_from..].find("\"") {
-                        let count_str = &content[search_from..search_from + slides_end];
-                        println!("Slides: {count_str}");
-                    }
+            }
+            if let Some(slides_start) = content.find("count=\"") {
+                let search_from = slides_start + 7;
+                if let Some(slides_end) = content[search_from..].find("\"") {
+                    let count_str = &content[search_from..search_from + slides_end];
+                    println!("Slides: {count_str}");
                 }
             }
+        } else {
+            let reader = crate::oxml::PresentationReader::open(file)
+                .map_err(|e| format!("Failed to read presentation: {e}"))?;
+            println!("\nPresentation Information");
+            println!("========================");
+            if let Some(title) = &reader.info().title {
+                println!("Title: {title}");
+            }
+            println!("Slides: {}", reader.slide_count());
         }
 
         Ok(())
-- 
2.43.0


From e16493ff00007dd249fad4680db37f4ab303e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:40 +0000
Subject: [PATCH 25/33] fix: replace characters XML cannot represent in
 generated parts

---
 src/core/xml_utils.rs                         | 30 +++++++------------
 src/generator/presentation_theme.rs           |  4 +--
 src/generator/props_xml.rs                    | 13 +-------
 src/generator/slide_content/comments.rs       |  6 +---
 .../slide_content/digital_signature.rs        |  6 +---
 src/generator/slide_content/embedded_fonts.rs |  6 +---
 src/generator/slide_content/print_settings.rs |  6 +---
 src/generator/slide_content/sections.rs       |  6 +---
 8 files changed, 18 insertions(+), 59 deletions(-)

diff --git a/src/core/xml_utils.rs b/src/core/xml_utils.rs
index f567516..bb62f5e 100644
--- a/src/core/xml_utils.rs
+++ b/src/core/xml_utils.rs
@@ -4,35 +4,26 @@
 
 use std::fmt::Write;
 
+/// Whether an XML 1.0 document can contain a character
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{FFFD}' | '\u{10000}'..)
+}
+
 /// Escape special XML characters in a single pass.
+///
+/// Characters that XML cannot represent are replaced by U+FFFD.
 pub fn escape_xml(s: &str) -> String {
-    // Fast path: most strings need no escaping.
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
-        return s.to_string();
-    }
-
     let mut out = String::with_capacity(s.len() + 8);
-    for c in s.chars() {
-        match c {
-            '&' => out.push_str("&amp;"),
-            '<' => out.push_str("&lt;"),
-            '>' => out.push_str("&gt;"),
-            '"' => out.push_str("&quot;"),
-            '\'' => out.push_str("&apos;"),
-            _ => out.push(c),
-        }
-    }
+    append_escape_xml(&mut out, s);
     out
 }
 
 /// Append escaped XML text into an existing buffer (avoids intermediate String).
 pub fn append_escape_xml(buf: &mut String, s: &str) {
+    // Fast path: most strings need no escaping (U+FFFE and U+FFFF begin with 0xEF).
     if !s
         .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
+        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\'' | 0..=0x1F | 0xEF))
     {
         buf.push_str(s);
         return;
@@ -44,6 +35,7 @@ pub fn append_escape_xml(buf: &mut String, s: &str) {
             '>' => buf.push_str("&gt;"),
             '"' => buf.push_str("&quot;"),
             '\'' => buf.push_str("&apos;"),
+            _ if !is_xml_char(c) => buf.push(char::REPLACEMENT_CHARACTER),
             _ => buf.push(c),
         }
     }
diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 1b1caff..8176115 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -309,9 +309,7 @@ fn normalize_hex(hex: &str) -> String {
 }
 
 fn escape_xml_attr(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('"', "&quot;")
-        .replace('<', "&lt;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index de41aa9..da8bd0a 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -21,18 +21,7 @@ pub fn create_core_props_xml(title: &str) -> String {
 
 /// Escape a string for use in XML text content / attribute values.
 fn xml_escape(s: &str) -> String {
-    let mut out = String::with_capacity(s.len());
-    for c in s.chars() {
-        match c {
-            '&' => out.push_str("&amp;"),
-            '<' => out.push_str("&lt;"),
-            '>' => out.push_str("&gt;"),
-            '"' => out.push_str("&quot;"),
-            '\'' => out.push_str("&apos;"),
-            _ => out.push(c),
-        }
-    }
-    out
+    crate::core::escape_xml(s)
 }
 
 /// Build the `<HeadingPairs>` and `<TitlesOfParts>` elements.
diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 7eef008..1b47c36 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -218,11 +218,7 @@ impl SlideComments {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index df533fd..bedf476 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -184,11 +184,7 @@ impl DigitalSignature {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index c3b7408..0695079 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -249,11 +249,7 @@ impl EmbeddedFontList {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/print_settings.rs b/src/generator/slide_content/print_settings.rs
index c19576d..081121a 100644
--- a/src/generator/slide_content/print_settings.rs
+++ b/src/generator/slide_content/print_settings.rs
@@ -232,11 +232,7 @@ impl PrintSettings {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0acbb0e..cc34795 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -177,11 +177,7 @@ fn generate_section_id(name: &str) -> String {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 94ca46a5721179785ce9f92b8178ab1aac069f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:36 +0000
Subject: [PATCH 26/33] fix: escape attribute values given by the caller

Colours, font names, bullet characters, relationship ids, dates and image
extensions were written into the parts unescaped, so a value with a markup
character made the package invalid.
---
 src/generator/connectors.rs                        | 2 +-
 src/generator/gradients.rs                         | 4 +++-
 src/generator/hyperlinks.rs                        | 6 +++---
 src/generator/images_xml.rs                        | 2 +-
 src/generator/layouts/common.rs                    | 5 +++--
 src/generator/package_xml.rs                       | 2 +-
 src/generator/presentation_theme.rs                | 2 +-
 src/generator/shapes_xml.rs                        | 6 +++---
 src/generator/slide/formatting.rs                  | 4 ++--
 src/generator/slide_content/bullet.rs              | 5 ++++-
 src/generator/slide_content/digital_signature.rs   | 2 +-
 src/generator/slide_content/embedded_fonts.rs      | 2 +-
 src/generator/slide_content/ink_annotations.rs     | 2 +-
 src/generator/slide_content/slide_show_settings.rs | 4 ++--
 src/generator/slide_xml/content.rs                 | 6 +-----
 src/generator/text/format.rs                       | 6 ++++--
 src/generator/text/run.rs                          | 2 +-
 src/parts/coreprops.rs                             | 6 +-----
 18 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/generator/connectors.rs b/src/generator/connectors.rs
index eefb63c..fe101a9 100644
--- a/src/generator/connectors.rs
+++ b/src/generator/connectors.rs
@@ -406,7 +406,7 @@ pub fn generate_connector_xml(connector: &Connector, shape_id: usize) -> String
         x, y, cx, cy,
         connector.connector_type.preset_name(),
         connector.line.width,
-        connector.line.color,
+        escape_xml(&connector.line.color),
         connector.line.dash.xml_value()
     ));
 
diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index ff77f5f..1711ed5 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -2,6 +2,8 @@
 //!
 //! Provides gradient types and XML generation for shape fills.
 
+use crate::core::escape_xml;
+
 /// Gradient types
 #[derive(Clone, Debug, Copy, PartialEq, Eq)]
 pub enum GradientType {
@@ -247,7 +249,7 @@ pub fn generate_gradient_fill_xml(gradient: &GradientFill) -> String {
     for stop in &gradient.stops {
         xml.push_str(&format!(
             r#"<a:gs pos="{}"><a:srgbClr val="{}""#,
-            stop.position, stop.color
+            stop.position, escape_xml(&stop.color)
         ));
 
         if let Some(alpha) = stop.transparency {
diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4b13be4..11eadd5 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -161,7 +161,7 @@ impl Hyperlink {
 
 /// Generate hyperlink XML for text run
 pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
-    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
+    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
         xml.push_str(&format!(r#" tooltip="{}""#, escape_xml(tooltip)));
@@ -182,7 +182,7 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
 /// Generate hyperlink XML for shape
 pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
-    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
+    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
         xml.push_str(&format!(r#" tooltip="{}""#, escape_xml(tooltip)));
@@ -211,7 +211,7 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
 
     format!(
         r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
-        r_id,
+        escape_xml(r_id),
         escape_xml(&target),
         target_mode
     )
diff --git a/src/generator/images_xml.rs b/src/generator/images_xml.rs
index 098e3e8..344a186 100644
--- a/src/generator/images_xml.rs
+++ b/src/generator/images_xml.rs
@@ -73,7 +73,7 @@ pub fn generate_image_content_type(extension: &str) -> String {
 
     format!(
         r#"<Default Extension="{}" ContentType="{}"/>"#,
-        extension.to_lowercase(),
+        crate::core::escape_xml(&extension.to_lowercase()),
         mime_type
     )
 }
diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 6498314..9d79eaa 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -69,20 +69,21 @@ impl ExtendedTextProps {
         attrs.push('>');
 
         if let Some(ref hex_color) = self.color {
-            let clean_color = hex_color.trim_start_matches('#').to_uppercase();
+            let clean_color = escape_xml(&hex_color.trim_start_matches('#').to_uppercase());
             attrs.push_str(&format!(
                 r#"<a:solidFill><a:srgbClr val="{clean_color}"/></a:solidFill>"#
             ));
         }
         
         if let Some(ref highlight) = self.highlight {
-            let clean_color = highlight.trim_start_matches('#').to_uppercase();
+            let clean_color = escape_xml(&highlight.trim_start_matches('#').to_uppercase());
             attrs.push_str(&format!(
                 r#"<a:highlight><a:srgbClr val="{clean_color}"/></a:highlight>"#
             ));
         }
         
         if let Some(ref font) = self.font_family {
+            let font = escape_xml(font);
             attrs.push_str(&format!(
                 r#"<a:latin typeface="{font}"/><a:cs typeface="{font}"/>"#
             ));
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 503ebcd..14c5957 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -567,7 +567,7 @@ pub fn create_slide_rels_xml_with_images(
         xml.push_str("\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/image\" Target=\"../media/image");
         append_usize(&mut xml, *image_num);
         xml.push('.');
-        xml.push_str(ext);
+        xml.push_str(&escape_xml(ext));
         xml.push_str("\"/>");
     }
 
diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 8176115..dd36094 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -239,7 +239,7 @@ impl PresentationTheme {
 
         let c = &self.colors;
         let color_slot = |tag: &str, hex: &str| {
-            format!(r#"<a:{tag}><a:srgbClr val="{hex}"/></a:{tag}>"#)
+            format!(r#"<a:{tag}><a:srgbClr val="{}"/></a:{tag}>"#, escape_xml_attr(hex))
         };
         let colors_xml = [
             color_slot("dk1", &c.dk1),
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 34ecae7..ec5a933 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -78,7 +78,7 @@ fn generate_fill_xml(fill: &Option<ShapeFill>) -> String {
                 r#"<a:solidFill>
 <a:srgbClr val="{}">{}</a:srgbClr>
 </a:solidFill>"#,
-                f.color, alpha
+                escape_xml(&f.color), alpha
             )
         }
         None => String::new(),
@@ -98,7 +98,7 @@ fn generate_gradient_xml(gradient: &GradientFill) -> String {
             r#"<a:gs pos="{}">
 <a:srgbClr val="{}">{}</a:srgbClr>
 </a:gs>"#,
-            stop.position, stop.color, alpha
+            stop.position, escape_xml(&stop.color), alpha
         ));
     }
     
@@ -124,7 +124,7 @@ fn generate_line_xml(line: &Option<ShapeLine>) -> String {
 <a:srgbClr val="{}"/>
 </a:solidFill>
 </a:ln>"#,
-                l.width, l.color
+                l.width, escape_xml(&l.color)
             )
         }
         None => String::new(),
diff --git a/src/generator/slide/formatting.rs b/src/generator/slide/formatting.rs
index 95255a3..38f25db 100644
--- a/src/generator/slide/formatting.rs
+++ b/src/generator/slide/formatting.rs
@@ -132,7 +132,7 @@ pub fn generate_rich_text_runs(
             
             if let Some(color) = base_color {
                 props.push('>');
-                let clean_color = color.trim_start_matches('#').to_uppercase();
+                let clean_color = escape_xml(&color.trim_start_matches('#').to_uppercase());
                 props.push_str(&format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, clean_color));
                 props.push_str("</a:rPr>");
             } else {
@@ -168,7 +168,7 @@ pub fn generate_text_props(
     props.push('>');
 
     if let Some(hex_color) = color {
-        let clean_color = hex_color.trim_start_matches('#').to_uppercase();
+        let clean_color = escape_xml(&hex_color.trim_start_matches('#').to_uppercase());
         props.push_str(&format!(
             r#"<a:solidFill><a:srgbClr val="{clean_color}"/></a:solidFill>"#
         ));
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index ccc976a..92ac0d1 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -34,7 +34,10 @@ impl BulletStyle {
             BulletStyle::LetterUpper => r#"<a:buAutoNum type="alphaUcPeriod"/>"#.to_string(),
             BulletStyle::RomanLower => r#"<a:buAutoNum type="romanLcPeriod"/>"#.to_string(),
             BulletStyle::RomanUpper => r#"<a:buAutoNum type="romanUcPeriod"/>"#.to_string(),
-            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, ch),
+            BulletStyle::Custom(ch) => format!(
+                r#"<a:buChar char="{}"/>"#,
+                crate::core::escape_xml(ch.encode_utf8(&mut [0; 4]))
+            ),
             BulletStyle::None => r#"<a:buNone/>"#.to_string(),
         }
     }
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index bedf476..3f187f4 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -170,7 +170,7 @@ impl DigitalSignature {
             self.hash_algorithm.uri(),
             self.commitment_type.uri(),
             self.commitment_type.label(),
-            date,
+            xml_escape(date),
         ));
         xml.push_str(r#"</Object>"#);
         xml.push_str(r#"</Signature>"#);
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 0695079..0f2b7e1 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -220,7 +220,7 @@ impl EmbeddedFontList {
             // Font descriptor (from first variant)
             if let Some(first) = variants.first() {
                 let panose_attr = first.panose.as_ref()
-                    .map(|p| format!(r#" panose="{}""#, p))
+                    .map(|p| format!(r#" panose="{}""#, xml_escape(p)))
                     .unwrap_or_default();
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
diff --git a/src/generator/slide_content/ink_annotations.rs b/src/generator/slide_content/ink_annotations.rs
index 3aa34ca..92de659 100644
--- a/src/generator/slide_content/ink_annotations.rs
+++ b/src/generator/slide_content/ink_annotations.rs
@@ -199,7 +199,7 @@ impl InkAnnotations {
             };
             xml.push_str(&format!(
                 "<ink:brush id=\"br{}\" color=\"#{}\" width=\"{}\" tip=\"{}\"{} />\n",
-                i, stroke.pen.color, stroke.pen.width, stroke.pen.tip.to_xml(), opacity_attr,
+                i, crate::core::escape_xml(&stroke.pen.color), stroke.pen.width, stroke.pen.tip.to_xml(), opacity_attr,
             ));
         }
 
diff --git a/src/generator/slide_content/slide_show_settings.rs b/src/generator/slide_content/slide_show_settings.rs
index 3fff7db..8e540b9 100644
--- a/src/generator/slide_content/slide_show_settings.rs
+++ b/src/generator/slide_content/slide_show_settings.rs
@@ -171,12 +171,12 @@ impl SlideShowSettings {
         // Pen color
         xml.push_str(&format!(
             r#"<p:penClr><a:srgbClr val="{}"/></p:penClr>"#,
-            self.pen_color.color
+            crate::core::escape_xml(&self.pen_color.color)
         ));
 
         xml.push_str(&format!(
             r#"<p:extLst><p:ext uri="{{EC167BDD-8182-4AB7-AECC-EB403E3ABB37}}"><p14:laserClr xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main"><a:srgbClr val="{}"/></p14:laserClr></p:ext>"#,
-            self.pen_color.color
+            crate::core::escape_xml(&self.pen_color.color)
         ));
         if self.show_media_controls {
             xml.push_str(
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d4aac14..3302457 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -100,11 +100,7 @@ fn generate_code_block(
     #[cfg(not(feature = "syntect"))]
     let highlighted_xml = {
         // Fallback to basic XML without syntax highlighting
-        let escaped_code = code_block.code
-            .replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        format!("<a:t>{}</a:t>", escaped_code)
+        format!("<a:t>{}</a:t>", crate::core::escape_xml(&code_block.code))
     };
 
     let x = code_block.x;
diff --git a/src/generator/text/format.rs b/src/generator/text/format.rs
index 28a78bb..a64c9cd 100644
--- a/src/generator/text/format.rs
+++ b/src/generator/text/format.rs
@@ -1,5 +1,7 @@
 //! Text formatting options
 
+use crate::core::escape_xml;
+
 /// Text formatting options
 #[derive(Clone, Debug, Default)]
 pub struct TextFormat {
@@ -119,7 +121,7 @@ impl TextFormat {
     /// Generate highlight element if set
     pub fn to_highlight_xml(&self) -> String {
         if let Some(ref color) = self.highlight {
-            format!(r#"<a:highlight><a:srgbClr val="{}"/></a:highlight>"#, color)
+            format!(r#"<a:highlight><a:srgbClr val="{}"/></a:highlight>"#, escape_xml(color))
         } else {
             String::new()
         }
@@ -205,7 +207,7 @@ impl FormattedText {
 
 /// Generate XML color element
 pub fn color_to_xml(hex_color: &str) -> String {
-    let clean_color = hex_color.trim_start_matches('#').to_uppercase();
+    let clean_color = escape_xml(&hex_color.trim_start_matches('#').to_uppercase());
     format!("<a:solidFill><a:srgbClr val=\"{}\"/></a:solidFill>", clean_color)
 }
 
diff --git a/src/generator/text/run.rs b/src/generator/text/run.rs
index 980c59b..afaa96d 100644
--- a/src/generator/text/run.rs
+++ b/src/generator/text/run.rs
@@ -70,7 +70,7 @@ impl Run {
         let underline = if self.format.underline { " u=\"sng\"" } else { "" };
         
         let color_xml = self.format.color.as_ref()
-            .map(|c| format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, c))
+            .map(|c| format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, escape_xml(c)))
             .unwrap_or_default();
         
         let font_xml = self.format.font_family.as_ref()
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 230b64e..b0c13d4 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -80,11 +80,7 @@ impl CorePropertiesPart {
     }
 
     fn escape_xml(s: &str) -> String {
-        s.replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;")
-            .replace('"', "&quot;")
-            .replace('\'', "&apos;")
+        crate::core::escape_xml(s)
     }
 }
 
-- 
2.43.0


From 336fe2185b42475fcf1023301e47536990b7be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:36 +0000
Subject: [PATCH 27/33] fix: sizes, levels and CSS values out of range do not
 panic

A font size, bullet level, rotation or angle near the limit of its type
overflowed, and a CSS colour of eight bytes that were not ASCII was cut
inside a character. Inline font sizes are now limited to what a run can
have, and hex colours to hex digits.
---
 src/generator/gradients.rs          |  2 +-
 src/generator/layouts/common.rs     |  5 +++--
 src/generator/layouts/two_column.rs |  4 ++--
 src/generator/shapes.rs             |  2 +-
 src/generator/shapes_xml.rs         |  2 +-
 src/generator/slide_xml/layouts.rs  | 25 +++++++++++++------------
 src/generator/text/format.rs        |  2 +-
 src/generator/text/run.rs           |  2 +-
 src/import/html.rs                  |  9 ++++++++-
 9 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index 1711ed5..dd32660 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -52,7 +52,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,
             GradientDirection::DiagonalDown => 2700000,
             GradientDirection::DiagonalUp => 18900000,
-            GradientDirection::Custom(deg) => deg * 60000,
+            GradientDirection::Custom(deg) => deg.saturating_mul(60000),
         }
     }
 }
diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 9d79eaa..b8705c0 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -263,8 +263,9 @@ impl SlideXmlBuilder {
     
     /// Add bullet paragraph with specific style
     pub fn add_bullet_with_style(mut self, text: &str, props: &str, level: u32, style: BulletStyle) -> Self {
-        let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
-        let margin_left = level * 457200 + indent;
+        let step = level.saturating_mul(457200); // 0.5 inch base + 0.5 inch per level
+        let indent = step.saturating_add(457200);
+        let margin_left = step.saturating_add(indent);
         let bullet_xml = style.to_xml();
         
         self.writer.raw(&format!(
diff --git a/src/generator/layouts/two_column.rs b/src/generator/layouts/two_column.rs
index d65b0f1..d7654e8 100644
--- a/src/generator/layouts/two_column.rs
+++ b/src/generator/layouts/two_column.rs
@@ -10,8 +10,8 @@ impl TwoColumnLayout {
     /// Generate two-column slide XML
     /// Bullets are automatically split between left and right columns
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(44) * 100;
-        let content_size = content.content_size.unwrap_or(24) * 100;
+        let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+        let content_size = content.content_size.unwrap_or(24).saturating_mul(100);
 
         let title_props = generate_text_props(
             title_size,
diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index 01c98d9..714c770 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -447,7 +447,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,      // 90 * 60000
             GradientDirection::DiagonalDown => 2700000,  // 45 * 60000
             GradientDirection::DiagonalUp => 18900000,   // 315 * 60000
-            GradientDirection::Angle(deg) => deg * 60000,
+            GradientDirection::Angle(deg) => deg.saturating_mul(60000),
         }
     }
 }
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index ec5a933..b50d75d 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -19,7 +19,7 @@ pub fn generate_shape_xml(shape: &Shape, shape_id: u32) -> String {
     let text_xml = generate_text_xml_with_autofit(&shape.text, shape.width, shape.height, fill_color);
     
     let rot_attr = if let Some(rot) = shape.rotation {
-        format!(r#" rot="{}""#, rot * 60000)
+        format!(r#" rot="{}""#, rot.saturating_mul(60000))
     } else {
         String::new()
     };
diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 95c0224..40ea264 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -14,7 +14,7 @@ fn generate_bullet_text_props(
 ) -> String {
     if let Some(fmt) = bullet_format {
         let props = ExtendedTextProps {
-            size: fmt.font_size.map(|s| s * 100).unwrap_or(default_props.size),
+            size: fmt.font_size.map(|s| s.saturating_mul(100)).unwrap_or(default_props.size),
             bold: fmt.bold || default_props.bold,
             italic: fmt.italic || default_props.italic,
             underline: fmt.underline || default_props.underline,
@@ -36,8 +36,9 @@ fn generate_bullet_paragraph_from_point(
     bullet: &BulletPoint,
     default_props: &ExtendedTextProps,
 ) -> String {
-    let indent = 457200 + (bullet.level * 457200);
-    let margin_left = bullet.level * 457200 + indent;
+    let step = bullet.level.saturating_mul(457200);
+    let indent = step.saturating_add(457200);
+    let margin_left = step.saturating_add(indent);
     let bullet_xml = bullet.style.to_xml();
     let text_props = generate_bullet_text_props(default_props, bullet.format.as_ref());
     
@@ -74,7 +75,7 @@ pub fn create_title_only_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         content.title_bold,
@@ -106,7 +107,7 @@ pub fn create_section_header_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(48) * 100;
+    let title_size = content.title_size.unwrap_or(48).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         true,
@@ -138,7 +139,7 @@ pub fn create_centered_title_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(54) * 100;
+    let title_size = content.title_size.unwrap_or(54).saturating_mul(100);
     let title_props = generate_text_props(
         title_size,
         content.title_bold,
@@ -170,8 +171,8 @@ pub fn create_title_and_big_content_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(28) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(28).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
@@ -276,8 +277,8 @@ pub fn create_two_column_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(24) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(24).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
@@ -428,8 +429,8 @@ pub fn create_title_and_content_slide(
     chart_rids: &[String],
     ink_rel_id: Option<&str>,
 ) -> String {
-    let title_size = content.title_size.unwrap_or(44) * 100;
-    let content_size = content.content_size.unwrap_or(28) * 100;
+    let title_size = content.title_size.unwrap_or(44).saturating_mul(100);
+    let content_size = content.content_size.unwrap_or(28).saturating_mul(100);
 
     let title_props = generate_text_props(
         title_size,
diff --git a/src/generator/text/format.rs b/src/generator/text/format.rs
index a64c9cd..3f77e0f 100644
--- a/src/generator/text/format.rs
+++ b/src/generator/text/format.rs
@@ -112,7 +112,7 @@ impl TextFormat {
         }
 
         if let Some(size) = self.font_size {
-            attrs.push_str(&format!(" sz=\"{}\"", size * 100));
+            attrs.push_str(&format!(" sz=\"{}\"", size.saturating_mul(100)));
         }
 
         attrs
diff --git a/src/generator/text/run.rs b/src/generator/text/run.rs
index afaa96d..5a35283 100644
--- a/src/generator/text/run.rs
+++ b/src/generator/text/run.rs
@@ -64,7 +64,7 @@ impl Run {
 
     /// Generate XML for this run
     pub fn to_xml(&self) -> String {
-        let size = self.format.font_size.unwrap_or(18) * 100;
+        let size = self.format.font_size.unwrap_or(18).saturating_mul(100);
         let bold = if self.format.bold { "1" } else { "0" };
         let italic = if self.format.italic { "1" } else { "0" };
         let underline = if self.format.underline { " u=\"sng\"" } else { "" };
diff --git a/src/import/html.rs b/src/import/html.rs
index 31bfd52..9b13424 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -226,6 +226,9 @@ fn css_named_color(name: &str) -> Option<&'static str> {
 fn parse_css_color(value: &str) -> Option<String> {
     let value = value.trim();
     if let Some(hex) = value.strip_prefix('#') {
+        if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return None;
+        }
         let hex = match hex.len() {
             3 => hex.chars().map(|c| format!("{c}{c}")).collect::<String>(),
             6 => hex.to_string(),
@@ -310,7 +313,11 @@ impl InlineStyle {
                 match prop.as_str() {
                     "color" => style.color = parse_css_color(value),
                     "background-color" => style.background_color = parse_css_color(value),
-                    "font-size" => style.font_size = parse_font_size(value),
+                    "font-size" => {
+                        // A run can be 1 to 4000 points
+                        style.font_size =
+                            parse_font_size(value).filter(|pt| (1..=4000).contains(pt));
+                    }
                     "font-weight" => style.font_weight = Some(value.to_string()),
                     "font-style" => style.font_style = Some(value.to_string()),
                     "text-decoration" => style.text_decoration = Some(value.to_string()),
-- 
2.43.0


From 712e82c53306cc6f1ceb89580584952aac65b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:36 +0000
Subject: [PATCH 28/33] fix: embedded font part names only hold name characters

A typeface with a slash, a dot segment or a control character gave a part
name its own relationship did not resolve to.
---
 src/generator/slide_content/embedded_fonts.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 0f2b7e1..9e07630 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -124,11 +124,24 @@ impl EmbeddedFont {
         "application/x-fontdata"
     }
 
+    /// The typeface as it stands in the part name
+    fn file_stem(&self) -> String {
+        let mut stem = String::new();
+        for c in self.typeface.chars().filter(|c| *c != ' ') {
+            if c.is_alphanumeric() || matches!(c, '-' | '_') {
+                stem.push(c);
+            } else {
+                stem.push_str(&format!("_{:x}", c as u32));
+            }
+        }
+        stem
+    }
+
     /// Part name in the ZIP archive
     pub fn part_name(&self) -> String {
         format!(
             "ppt/fonts/{}-{}.fntdata",
-            self.typeface.replace(' ', ""),
+            self.file_stem(),
             self.style.xml_element()
         )
     }
@@ -137,7 +150,7 @@ impl EmbeddedFont {
     pub fn rel_target(&self) -> String {
         format!(
             "fonts/{}-{}.fntdata",
-            self.typeface.replace(' ', ""),
+            self.file_stem(),
             self.style.xml_element()
         )
     }
-- 
2.43.0


From 901f67ef09f0cd8dc93f5de3d8573fbb060efdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:59 +0000
Subject: [PATCH 29/33] fix: exported Markdown keeps cells and notes together

A line break in a table cell ended its row and a bar divided it, and only
the first line of the notes was quoted; the PDF export panicked when such a
row was only a bar.
---
 src/export/md.rs         | 15 ++++++++++++---
 src/export/pdf_export.rs |  5 +++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/export/md.rs b/src/export/md.rs
index b5f802b..1669242 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -165,7 +165,10 @@ pub fn export_to_markdown_with_options(
         if options.include_notes && has_notes {
             md.push_str("**Notes:**\n\n");
             if let Some(notes) = &slide.notes {
-                md.push_str(&format!("> {}\n\n", escape_markdown(notes)));
+                for line in notes.lines() {
+                    md.push_str(&format!("> {}\n", escape_markdown(line)));
+                }
+                md.push('\n');
             }
         }
     }
@@ -181,7 +184,7 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
     if let Some(first_row) = table.rows.first() {
         md.push_str("| ");
         for cell in &first_row.cells {
-            md.push_str(&escape_markdown(&cell.text));
+            md.push_str(&escape_cell(&cell.text));
             md.push_str(" | ");
         }
         md.push('\n');
@@ -197,7 +200,7 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
         for row in table.rows.iter().skip(1) {
             md.push_str("| ");
             for cell in &row.cells {
-                md.push_str(&escape_markdown(&cell.text));
+                md.push_str(&escape_cell(&cell.text));
                 md.push_str(" | ");
             }
             md.push('\n');
@@ -220,6 +223,12 @@ fn escape_markdown(text: &str) -> String {
         .replace('>', "\\>")
 }
 
+/// Escape a table cell: a row is one line, and bars divide its cells
+fn escape_cell(text: &str) -> String {
+    let line = text.lines().collect::<Vec<_>>().join(" ");
+    escape_markdown(&line).replace('|', "\\|")
+}
+
 /// Escape special YAML characters in frontmatter
 fn escape_yaml(text: &str) -> String {
     if text.contains('\n') || text.contains('"') || text.contains('\\') {
diff --git a/src/export/pdf_export.rs b/src/export/pdf_export.rs
index 7a8af58..5644b6c 100644
--- a/src/export/pdf_export.rs
+++ b/src/export/pdf_export.rs
@@ -140,6 +140,11 @@ pub fn export_to_pdf_bytes(
         },
     )?;
 
+    // pdfrs panics on a line that is only a bar
+    let md: String = md
+        .lines()
+        .map(|line| if line.trim() == "|" { "\\|\n".to_string() } else { format!("{line}\n") })
+        .collect();
     let elements = pdfrs::elements::parse_markdown(&md);
     let layout = match options.orientation {
         PdfOrientation::Portrait => pdfrs::pdf_generator::PageLayout::portrait(),
-- 
2.43.0


From 566f7cb72a7de6a8b0dca6878df41ce22d760e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:14 +0000
Subject: [PATCH 30/33] fix: deeply nested web pages do not overflow the parser

---
 src/web2ppt/parser.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/web2ppt/parser.rs b/src/web2ppt/parser.rs
index e54a2fb..2e2ac7d 100644
--- a/src/web2ppt/parser.rs
+++ b/src/web2ppt/parser.rs
@@ -290,18 +290,27 @@ impl WebParser {
         let main = main_element.ok_or(Web2PptError::NoContent)?;
 
         // Extract content in document order by walking the DOM
-        self.walk_element(&main, content, 0);
+        let mut pending = vec![(main, 0u8)];
+        while let Some((element, depth)) = pending.pop() {
+            if self.extract_element(&element, content, depth) {
+                let children = element.children().filter_map(ElementRef::wrap);
+                let first = pending.len();
+                pending.extend(children.map(|child| (child, depth.saturating_add(1))));
+                pending[first..].reverse();
+            }
+        }
 
         Ok(())
     }
 
-    /// Walk element tree and extract content in order
-    fn walk_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) {
+    /// Extract the content of an element, and tell whether its children have
+    /// content of their own
+    fn extract_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) -> bool {
         // Skip script, style, nav, footer, aside, header elements
         let tag_name = element.value().name();
         let skip_tags = ["script", "style", "noscript", "svg", "form", "button", "input", "select", "textarea", "iframe"];
         if skip_tags.contains(&tag_name) {
-            return;
+            return false;
         }
 
         // Check for class/id names that indicate non-content (but be less aggressive)
@@ -310,7 +319,7 @@ impl WebParser {
             // Only skip if clearly navigation/ads
             let skip_classes = ["advertisement", "ad-container", "social-share", "comment-section"];
             if skip_classes.iter().any(|c| class_lower.contains(c)) {
-                return;
+                return false;
             }
         }
 
@@ -355,7 +364,7 @@ impl WebParser {
                         content.blocks.push(ContentBlock::new(ContentType::Code, text));
                     }
                 }
-                return; // Don't recurse into code blocks
+                return false; // Don't recurse into code blocks
             }
             "img" => {
                 if self.config.include_images {
@@ -375,7 +384,7 @@ impl WebParser {
                 if self.config.include_tables {
                     self.extract_table(element, content);
                 }
-                return; // Don't recurse into tables
+                return false; // Don't recurse into tables
             }
             "a" => {
                 // Extract important links
@@ -394,13 +403,7 @@ impl WebParser {
 
         // Always recurse into children (except for leaf elements we've already processed)
         let no_recurse_tags = ["p", "li", "pre", "code", "img", "table", "blockquote", "h1", "h2", "h3", "h4", "h5", "h6"];
-        if !no_recurse_tags.contains(&tag_name) {
-            for child in element.children() {
-                if let Some(child_elem) = ElementRef::wrap(child) {
-                    self.walk_element(&child_elem, content, depth + 1);
-                }
-            }
-        }
+        !no_recurse_tags.contains(&tag_name)
     }
 
     /// Clean and normalize text
-- 
2.43.0


From fd191927c80f9b152c5ba15a6e4518219dc62ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:14 +0000
Subject: [PATCH 31/33] fix: exporting images of one chosen slide does not
 export them all

---
 src/export/image_export.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/export/image_export.rs b/src/export/image_export.rs
index dda4ea5..8694207 100644
--- a/src/export/image_export.rs
+++ b/src/export/image_export.rs
@@ -152,7 +152,16 @@ pub fn export_to_images<P: AsRef<Path>>(
     let output_dir = output_dir.as_ref();
     std::fs::create_dir_all(output_dir)?;
 
-    let (_temp_dir, images) = convert_to_images(presentation, options)?;
+    let (_temp_dir, mut images) = convert_to_images(presentation, options)?;
+    if options.slide_number != 0 {
+        images.retain(|path| extract_slide_number(path) == options.slide_number);
+        if images.is_empty() {
+            return Err(PptxError::InvalidOperation(format!(
+                "No image of slide {}",
+                options.slide_number
+            )));
+        }
+    }
     let mut exported = Vec::with_capacity(images.len());
     for image in images {
         let target = output_dir.join(image.file_name().unwrap_or_default());
-- 
2.43.0


From 8d4aad6d4942af073b7c99d2e0f292713d387fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:49 +0000
Subject: [PATCH 32/33] fix: an image with huge dimensions is an error instead
 of an overflow

---
 src/generator/images.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 2cd3603..a1ec908 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -117,8 +117,13 @@ impl Image {
             .ok_or_else(|| "Failed to detect image dimensions (unsupported format)".to_string())?;
             
         // Convert pixels to EMU (assuming 96 DPI): 1 pixel = 9525 EMU
-        let w_emu = w * 9525;
-        let h_emu = h * 9525;
+        let emu = |pixels: u32| {
+            pixels
+                .checked_mul(9525)
+                .ok_or_else(|| "Image dimensions are too large".to_string())
+        };
+        let w_emu = emu(w)?;
+        let h_emu = emu(h)?;
         
         Ok(Image {
             filename,
-- 
2.43.0


From acf1ada079fd7f033a48dcd5e597b73c86538ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:16 +0000
Subject: [PATCH 33/33] fix: embedded fonts are listed where the format expects
 them

---
 src/generator/package_xml.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 14c5957..ee915b5 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -389,8 +389,8 @@ pub fn create_presentation_xml_with_fonts(
     let mut xml = create_presentation_xml(title, slides, has_notes, has_handout);
     let font_xml = fonts.to_xml();
     if !font_xml.is_empty() {
-        // Insert <p:embeddedFontLst> before the closing </p:presentation>.
-        if let Some(pos) = xml.rfind("</p:presentation>") {
+        // <p:embeddedFontLst> comes between the page sizes and the text style.
+        if let Some(pos) = xml.find("<p:defaultTextStyle>") {
             xml.insert_str(pos, &font_xml);
         }
     }
-- 
2.43.0

