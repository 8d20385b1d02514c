From e9793c98d09cbceacce87978d7c9c4c8231e3fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 01/50] fix: escape relationship ids, targets and content types
 in package XML

---
 src/generator/charts/xml.rs  |  2 +-
 src/generator/hyperlinks.rs  |  6 +++---
 src/generator/images_xml.rs  |  2 +-
 src/generator/media.rs       |  4 ++--
 src/generator/package_xml.rs | 12 ++++++------
 src/parts/content_types.rs   |  6 ++++--
 src/parts/relationships.rs   |  4 ++--
 src/parts/slide_master.rs    |  2 +-
 8 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 6fe9bd1..e849a03 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -47,7 +47,7 @@ pub fn generate_chart_ref_xml(chart: &Chart, r_id: &str, shape_id: usize) -> Str
 </a:graphicData>
 </a:graphic>
 </p:graphicFrame>"#,
-        shape_id, shape_id, chart.x, chart.y, chart.width, chart.height, r_id
+        shape_id, shape_id, chart.x, chart.y, chart.width, chart.height, escape_xml(r_id)
     )
 }
 
diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4b13be4..11eadd5 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -161,7 +161,7 @@ impl Hyperlink {
 
 /// Generate hyperlink XML for text run
 pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
-    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
+    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
         xml.push_str(&format!(r#" tooltip="{}""#, escape_xml(tooltip)));
@@ -182,7 +182,7 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
 /// Generate hyperlink XML for shape
 pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
-    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
+    let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
         xml.push_str(&format!(r#" tooltip="{}""#, escape_xml(tooltip)));
@@ -211,7 +211,7 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
 
     format!(
         r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
-        r_id,
+        escape_xml(r_id),
         escape_xml(&target),
         target_mode
     )
diff --git a/src/generator/images_xml.rs b/src/generator/images_xml.rs
index 098e3e8..344a186 100644
--- a/src/generator/images_xml.rs
+++ b/src/generator/images_xml.rs
@@ -73,7 +73,7 @@ pub fn generate_image_content_type(extension: &str) -> String {
 
     format!(
         r#"<Default Extension="{}" ContentType="{}"/>"#,
-        extension.to_lowercase(),
+        crate::core::escape_xml(&extension.to_lowercase()),
         mime_type
     )
 }
diff --git a/src/generator/media.rs b/src/generator/media.rs
index dc4b1a4..5707182 100644
--- a/src/generator/media.rs
+++ b/src/generator/media.rs
@@ -400,7 +400,7 @@ pub fn generate_video_xml(video: &Video, shape_id: usize, video_r_id: &str, _ima
 </p:spPr>
 </p:pic>"#,
         shape_id, shape_id, escape_xml(alt_text),
-        video_r_id, video_r_id, video_r_id,
+        escape_xml(video_r_id), escape_xml(video_r_id), escape_xml(video_r_id),
         video.x, video.y, video.width, video.height
     )
 }
@@ -444,7 +444,7 @@ pub fn generate_audio_xml(audio: &Audio, shape_id: usize, audio_r_id: &str) -> S
 </p:spPr>
 </p:pic>"#,
         shape_id, shape_id, escape_xml(alt_text),
-        audio_r_id, audio_r_id, audio_r_id,
+        escape_xml(audio_r_id), escape_xml(audio_r_id), escape_xml(audio_r_id),
         audio.x, audio.y, audio.width, audio.height
     )
 }
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ea5360d..2c2be8d 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -257,7 +257,7 @@ pub fn create_presentation_rels_xml_full_with_fonts(
             xml.rfind("</Relationships>").unwrap_or(xml.len()),
             &format!(
                 r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/font" Target="{}"/>"#,
-                font.relationship_id,
+                escape_xml(&font.relationship_id),
                 escape_xml(&target),
             ),
         );
@@ -506,9 +506,9 @@ pub fn create_slide_rels_xml_extended(
 
     for (rid, target) in chart_rels {
         xml.push_str("\n<Relationship Id=\"");
-        xml.push_str(rid);
+        xml.push_str(&escape_xml(rid));
         xml.push_str("\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/chart\" Target=\"");
-        xml.push_str(target);
+        xml.push_str(&escape_xml(target));
         xml.push_str("\"/>");
     }
 
@@ -554,15 +554,15 @@ pub fn create_slide_rels_xml_with_images(
         xml.push_str("\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/image\" Target=\"../media/image");
         append_usize(&mut xml, *image_num);
         xml.push('.');
-        xml.push_str(ext);
+        xml.push_str(&escape_xml(ext));
         xml.push_str("\"/>");
     }
 
     for (rid, target) in chart_rels {
         xml.push_str("\n<Relationship Id=\"");
-        xml.push_str(rid);
+        xml.push_str(&escape_xml(rid));
         xml.push_str("\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/chart\" Target=\"");
-        xml.push_str(target);
+        xml.push_str(&escape_xml(target));
         xml.push_str("\"/>");
     }
 
diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 46517ea..c043526 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -160,7 +160,8 @@ impl ContentTypesPart {
             .map(|d| {
                 format!(
                     r#"<Default Extension="{}" ContentType="{}"/>"#,
-                    d.extension, d.content_type
+                    crate::core::escape_xml(&d.extension),
+                    crate::core::escape_xml(&d.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -172,7 +173,8 @@ impl ContentTypesPart {
             .map(|o| {
                 format!(
                     r#"<Override PartName="{}" ContentType="{}"/>"#,
-                    o.part_name, o.content_type
+                    crate::core::escape_xml(&o.part_name),
+                    crate::core::escape_xml(&o.content_type)
                 )
             })
             .collect::<Vec<_>>()
diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 2b8255e..06e8f53 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -86,9 +86,9 @@ impl Relationship {
     pub fn to_xml(&self) -> String {
         format!(
             r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
-            self.id,
+            crate::core::escape_xml(&self.id),
             self.rel_type.uri(),
-            self.target
+            crate::core::escape_xml(&self.target)
         )
     }
 }
diff --git a/src/parts/slide_master.rs b/src/parts/slide_master.rs
index 41d7516..5275eca 100644
--- a/src/parts/slide_master.rs
+++ b/src/parts/slide_master.rs
@@ -72,7 +72,7 @@ impl SlideMasterPart {
                 format!(
                     r#"<p:sldLayoutId id="{}" r:id="{}"/>"#,
                     2147483649 + self.layout_rel_ids.iter().position(|x| x == id).unwrap() as u64,
-                    id
+                    crate::core::escape_xml(id)
                 )
             })
             .collect::<Vec<_>>()
-- 
2.43.0


From 16775fd2c931d5a045f4ef2148d6ca405062cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 02/50] fix: escape colours, fonts and bullet characters in
 text run properties

---
 src/generator/layouts/common.rs       | 5 +++--
 src/generator/slide/formatting.rs     | 4 ++--
 src/generator/slide_content/bullet.rs | 2 +-
 src/generator/text/format.rs          | 4 ++--
 src/generator/text/run.rs             | 2 +-
 5 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 6498314..9d79eaa 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -69,20 +69,21 @@ impl ExtendedTextProps {
         attrs.push('>');
 
         if let Some(ref hex_color) = self.color {
-            let clean_color = hex_color.trim_start_matches('#').to_uppercase();
+            let clean_color = escape_xml(&hex_color.trim_start_matches('#').to_uppercase());
             attrs.push_str(&format!(
                 r#"<a:solidFill><a:srgbClr val="{clean_color}"/></a:solidFill>"#
             ));
         }
         
         if let Some(ref highlight) = self.highlight {
-            let clean_color = highlight.trim_start_matches('#').to_uppercase();
+            let clean_color = escape_xml(&highlight.trim_start_matches('#').to_uppercase());
             attrs.push_str(&format!(
                 r#"<a:highlight><a:srgbClr val="{clean_color}"/></a:highlight>"#
             ));
         }
         
         if let Some(ref font) = self.font_family {
+            let font = escape_xml(font);
             attrs.push_str(&format!(
                 r#"<a:latin typeface="{font}"/><a:cs typeface="{font}"/>"#
             ));
diff --git a/src/generator/slide/formatting.rs b/src/generator/slide/formatting.rs
index 95255a3..38f25db 100644
--- a/src/generator/slide/formatting.rs
+++ b/src/generator/slide/formatting.rs
@@ -132,7 +132,7 @@ pub fn generate_rich_text_runs(
             
             if let Some(color) = base_color {
                 props.push('>');
-                let clean_color = color.trim_start_matches('#').to_uppercase();
+                let clean_color = escape_xml(&color.trim_start_matches('#').to_uppercase());
                 props.push_str(&format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, clean_color));
                 props.push_str("</a:rPr>");
             } else {
@@ -168,7 +168,7 @@ pub fn generate_text_props(
     props.push('>');
 
     if let Some(hex_color) = color {
-        let clean_color = hex_color.trim_start_matches('#').to_uppercase();
+        let clean_color = escape_xml(&hex_color.trim_start_matches('#').to_uppercase());
         props.push_str(&format!(
             r#"<a:solidFill><a:srgbClr val="{clean_color}"/></a:solidFill>"#
         ));
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index ccc976a..5c64d89 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -34,7 +34,7 @@ impl BulletStyle {
             BulletStyle::LetterUpper => r#"<a:buAutoNum type="alphaUcPeriod"/>"#.to_string(),
             BulletStyle::RomanLower => r#"<a:buAutoNum type="romanLcPeriod"/>"#.to_string(),
             BulletStyle::RomanUpper => r#"<a:buAutoNum type="romanUcPeriod"/>"#.to_string(),
-            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, ch),
+            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, crate::core::escape_xml(&ch.to_string())),
             BulletStyle::None => r#"<a:buNone/>"#.to_string(),
         }
     }
diff --git a/src/generator/text/format.rs b/src/generator/text/format.rs
index 28a78bb..2d40fff 100644
--- a/src/generator/text/format.rs
+++ b/src/generator/text/format.rs
@@ -119,7 +119,7 @@ impl TextFormat {
     /// Generate highlight element if set
     pub fn to_highlight_xml(&self) -> String {
         if let Some(ref color) = self.highlight {
-            format!(r#"<a:highlight><a:srgbClr val="{}"/></a:highlight>"#, color)
+            format!(r#"<a:highlight><a:srgbClr val="{}"/></a:highlight>"#, crate::core::escape_xml(color))
         } else {
             String::new()
         }
@@ -205,7 +205,7 @@ impl FormattedText {
 
 /// Generate XML color element
 pub fn color_to_xml(hex_color: &str) -> String {
-    let clean_color = hex_color.trim_start_matches('#').to_uppercase();
+    let clean_color = crate::core::escape_xml(&hex_color.trim_start_matches('#').to_uppercase());
     format!("<a:solidFill><a:srgbClr val=\"{}\"/></a:solidFill>", clean_color)
 }
 
diff --git a/src/generator/text/run.rs b/src/generator/text/run.rs
index 980c59b..afaa96d 100644
--- a/src/generator/text/run.rs
+++ b/src/generator/text/run.rs
@@ -70,7 +70,7 @@ impl Run {
         let underline = if self.format.underline { " u=\"sng\"" } else { "" };
         
         let color_xml = self.format.color.as_ref()
-            .map(|c| format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, c))
+            .map(|c| format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, escape_xml(c)))
             .unwrap_or_default();
         
         let font_xml = self.format.font_family.as_ref()
-- 
2.43.0


From e0e5db27a176a16045d106c4273fc35ae7dd9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 03/50] fix: escape colours and fonts in shape, connector,
 gradient and table XML

---
 src/generator/connectors.rs | 2 +-
 src/generator/gradients.rs  | 2 +-
 src/generator/shapes_xml.rs | 8 ++++----
 src/parts/table.rs          | 8 ++++----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/generator/connectors.rs b/src/generator/connectors.rs
index eefb63c..fe101a9 100644
--- a/src/generator/connectors.rs
+++ b/src/generator/connectors.rs
@@ -406,7 +406,7 @@ pub fn generate_connector_xml(connector: &Connector, shape_id: usize) -> String
         x, y, cx, cy,
         connector.connector_type.preset_name(),
         connector.line.width,
-        connector.line.color,
+        escape_xml(&connector.line.color),
         connector.line.dash.xml_value()
     ));
 
diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index ff77f5f..863975d 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -247,7 +247,7 @@ pub fn generate_gradient_fill_xml(gradient: &GradientFill) -> String {
     for stop in &gradient.stops {
         xml.push_str(&format!(
             r#"<a:gs pos="{}"><a:srgbClr val="{}""#,
-            stop.position, stop.color
+            stop.position, crate::core::escape_xml(&stop.color)
         ));
 
         if let Some(alpha) = stop.transparency {
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 34ecae7..79bb212 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -78,7 +78,7 @@ fn generate_fill_xml(fill: &Option<ShapeFill>) -> String {
                 r#"<a:solidFill>
 <a:srgbClr val="{}">{}</a:srgbClr>
 </a:solidFill>"#,
-                f.color, alpha
+                escape_xml(&f.color), alpha
             )
         }
         None => String::new(),
@@ -98,7 +98,7 @@ fn generate_gradient_xml(gradient: &GradientFill) -> String {
             r#"<a:gs pos="{}">
 <a:srgbClr val="{}">{}</a:srgbClr>
 </a:gs>"#,
-            stop.position, stop.color, alpha
+            stop.position, escape_xml(&stop.color), alpha
         ));
     }
     
@@ -124,7 +124,7 @@ fn generate_line_xml(line: &Option<ShapeLine>) -> String {
 <a:srgbClr val="{}"/>
 </a:solidFill>
 </a:ln>"#,
-                l.width, l.color
+                l.width, escape_xml(&l.color)
             )
         }
         None => String::new(),
@@ -470,7 +470,7 @@ pub fn generate_connector_xml(
         (end_x as i64 - start_x as i64).unsigned_abs() as u32,
         (end_y as i64 - start_y as i64).unsigned_abs() as u32,
         width,
-        color.trim_start_matches('#').to_uppercase(),
+        escape_xml(&color.trim_start_matches('#').to_uppercase()),
     )
 }
 
diff --git a/src/parts/table.rs b/src/parts/table.rs
index f5e7de2..6dbade3 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -111,7 +111,7 @@ impl CellBorder {
             </a:{}>"#,
             tag,
             self.width,
-            self.color.trim_start_matches('#'),
+            escape_xml(self.color.trim_start_matches('#')),
             self.style.as_str(),
             tag
         )
@@ -376,7 +376,7 @@ impl TableCellPart {
             .map(|c| {
                 format!(
                     r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#,
-                    c.trim_start_matches('#')
+                    escape_xml(c.trim_start_matches('#'))
                 )
             })
             .unwrap_or_default();
@@ -406,7 +406,7 @@ impl TableCellPart {
             .map(|c| {
                 format!(
                     r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#,
-                    c.trim_start_matches('#')
+                    escape_xml(c.trim_start_matches('#'))
                 )
             })
             .unwrap_or_default();
@@ -415,7 +415,7 @@ impl TableCellPart {
         let font_xml = self
             .font_family
             .as_ref()
-            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, f))
+            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, escape_xml(f)))
             .unwrap_or_default();
 
         // Paragraph alignment
-- 
2.43.0


From 38d384b02b81d8d390204e6e5cf18d4f4c7ae3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 04/50] fix: escape theme names, fonts and colours, drop the
 invalid val attribute on theme colour slots

---
 src/generator/presentation_theme.rs |  1 +
 src/parts/theme.rs                  | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 1b1caff..89aee71 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -239,6 +239,7 @@ impl PresentationTheme {
 
         let c = &self.colors;
         let color_slot = |tag: &str, hex: &str| {
+            let hex = escape_xml_attr(hex);
             format!(r#"<a:{tag}><a:srgbClr val="{hex}"/></a:{tag}>"#)
         };
         let colors_xml = [
diff --git a/src/parts/theme.rs b/src/parts/theme.rs
index 48a9961..5bfb61a 100644
--- a/src/parts/theme.rs
+++ b/src/parts/theme.rs
@@ -126,8 +126,10 @@ impl ThemePart {
             .iter()
             .map(|c| {
                 format!(
-                    r#"<a:{} val="{}"><a:srgbClr val="{}"/></a:{}>"#,
-                    c.name, c.name, c.value, c.name
+                    r#"<a:{}><a:srgbClr val="{}"/></a:{}>"#,
+                    c.name,
+                    crate::core::escape_xml(&c.value),
+                    c.name
                 )
             })
             .collect::<Vec<_>>()
@@ -178,7 +180,10 @@ impl ThemePart {
   <a:objectDefaults/>
   <a:extraClrSchemeLst/>
 </a:theme>"#,
-            self.name, colors_xml, self.major_font.typeface, self.minor_font.typeface
+            crate::core::escape_xml(&self.name),
+            colors_xml,
+            crate::core::escape_xml(&self.major_font.typeface),
+            crate::core::escape_xml(&self.minor_font.typeface)
         )
     }
 }
-- 
2.43.0


From d0f147a8326e69ba82006a4e5dda4486c42a5014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 05/50] fix: escape user text in document properties, layout
 names, ink, fonts, signatures and slide show settings

---
 src/generator/props_xml.rs                         | 1 +
 src/generator/slide_content/digital_signature.rs   | 2 +-
 src/generator/slide_content/embedded_fonts.rs      | 4 ++--
 src/generator/slide_content/ink_annotations.rs     | 2 +-
 src/generator/slide_content/slide_show_settings.rs | 4 ++--
 src/parts/app_props.rs                             | 8 ++++----
 src/parts/slide_layout.rs                          | 2 +-
 7 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 9b23ef4..13d0be2 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -28,6 +28,7 @@ fn current_timestamp() -> String {
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
     let now = current_timestamp();
+    let title = xml_escape(title);
     format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/" xmlns:dcmitype="http://purl.org/dc/dcmitype/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index df533fd..4cfe8c6 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -170,7 +170,7 @@ impl DigitalSignature {
             self.hash_algorithm.uri(),
             self.commitment_type.uri(),
             self.commitment_type.label(),
-            date,
+            xml_escape(date),
         ));
         xml.push_str(r#"</Object>"#);
         xml.push_str(r#"</Signature>"#);
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index c3b7408..ef48f16 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -220,7 +220,7 @@ impl EmbeddedFontList {
             // Font descriptor (from first variant)
             if let Some(first) = variants.first() {
                 let panose_attr = first.panose.as_ref()
-                    .map(|p| format!(r#" panose="{}""#, p))
+                    .map(|p| format!(r#" panose="{}""#, xml_escape(p)))
                     .unwrap_or_default();
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
@@ -236,7 +236,7 @@ impl EmbeddedFontList {
                 xml.push_str(&format!(
                     r#"<p:{} r:id="{}"/>"#,
                     font.style.xml_element(),
-                    font.relationship_id,
+                    xml_escape(&font.relationship_id),
                 ));
             }
 
diff --git a/src/generator/slide_content/ink_annotations.rs b/src/generator/slide_content/ink_annotations.rs
index 3aa34ca..92de659 100644
--- a/src/generator/slide_content/ink_annotations.rs
+++ b/src/generator/slide_content/ink_annotations.rs
@@ -199,7 +199,7 @@ impl InkAnnotations {
             };
             xml.push_str(&format!(
                 "<ink:brush id=\"br{}\" color=\"#{}\" width=\"{}\" tip=\"{}\"{} />\n",
-                i, stroke.pen.color, stroke.pen.width, stroke.pen.tip.to_xml(), opacity_attr,
+                i, crate::core::escape_xml(&stroke.pen.color), stroke.pen.width, stroke.pen.tip.to_xml(), opacity_attr,
             ));
         }
 
diff --git a/src/generator/slide_content/slide_show_settings.rs b/src/generator/slide_content/slide_show_settings.rs
index 3fff7db..8e540b9 100644
--- a/src/generator/slide_content/slide_show_settings.rs
+++ b/src/generator/slide_content/slide_show_settings.rs
@@ -171,12 +171,12 @@ impl SlideShowSettings {
         // Pen color
         xml.push_str(&format!(
             r#"<p:penClr><a:srgbClr val="{}"/></p:penClr>"#,
-            self.pen_color.color
+            crate::core::escape_xml(&self.pen_color.color)
         ));
 
         xml.push_str(&format!(
             r#"<p:extLst><p:ext uri="{{EC167BDD-8182-4AB7-AECC-EB403E3ABB37}}"><p14:laserClr xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main"><a:srgbClr val="{}"/></p14:laserClr></p:ext>"#,
-            self.pen_color.color
+            crate::core::escape_xml(&self.pen_color.color)
         ));
         if self.show_media_controls {
             xml.push_str(
diff --git a/src/parts/app_props.rs b/src/parts/app_props.rs
index b806ecf..e1d4940 100644
--- a/src/parts/app_props.rs
+++ b/src/parts/app_props.rs
@@ -73,7 +73,7 @@ impl AppPropertiesPart {
         let company_xml = self
             .company
             .as_ref()
-            .map(|c| format!("<Company>{}</Company>", c))
+            .map(|c| format!("<Company>{}</Company>", crate::core::escape_xml(c)))
             .unwrap_or_default();
 
         format!(
@@ -94,10 +94,10 @@ impl AppPropertiesPart {
   <SharedDoc>{}</SharedDoc>
   <HyperlinksChanged>{}</HyperlinksChanged>
 </Properties>"#,
-            self.application,
-            self.app_version,
+            crate::core::escape_xml(&self.application),
+            crate::core::escape_xml(&self.app_version),
             company_xml,
-            self.presentation_format,
+            crate::core::escape_xml(&self.presentation_format),
             self.slides,
             self.paragraphs,
             self.words,
diff --git a/src/parts/slide_layout.rs b/src/parts/slide_layout.rs
index 34054e3..99085ea 100644
--- a/src/parts/slide_layout.rs
+++ b/src/parts/slide_layout.rs
@@ -140,7 +140,7 @@ impl SlideLayoutPart {
   </p:clrMapOvr>
 </p:sldLayout>"#,
             self.layout_type.type_value(),
-            self.name
+            crate::core::escape_xml(&self.name)
         )
     }
 }
-- 
2.43.0


From 407e617aecf9f37b7021045fc88399a98ccca95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:25 +0000
Subject: [PATCH 06/50] fix: write package and template parts in a
 deterministic order

---
 src/generator/builder.rs |  4 +++-
 src/opc/package.rs       | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index ccec2dc..9c2e489 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -632,7 +632,9 @@ fn write_theme_and_layouts<W: Write + Seek>(
     let print = settings.and_then(|s| s.print.as_ref());
 
     if let Some(tmpl) = template {
-        for (path, data) in tmpl.parts() {
+        let mut parts: Vec<_> = tmpl.parts().iter().collect();
+        parts.sort();
+        for (path, data) in parts {
             zip.start_file(path, *options)?;
             zip.write_all(data)?;
         }
diff --git a/src/opc/package.rs b/src/opc/package.rs
index 853766f..d833062 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -1,21 +1,21 @@
 //! OPC Package handling
 
 use crate::exc::Result;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::io::Read;
 use std::path::Path;
 
 /// Represents an OPC package (ZIP file)
 pub struct Package {
-    /// Package parts stored as (path, content)
-    parts: HashMap<String, Vec<u8>>,
+    /// Package parts stored as (path, content), ordered so that saving is deterministic
+    parts: BTreeMap<String, Vec<u8>>,
 }
 
 impl Package {
     /// Create a new empty package
     pub fn new() -> Self {
         Package {
-            parts: HashMap::new(),
+            parts: BTreeMap::new(),
         }
     }
 
@@ -30,7 +30,7 @@ impl Package {
     pub fn open_reader<R: Read + std::io::Seek>(reader: R) -> Result<Self> {
         let mut archive = zip::ZipArchive::new(reader)?;
 
-        let mut parts = HashMap::new();
+        let mut parts = BTreeMap::new();
 
         for i in 0..archive.len() {
             let mut file = archive.by_index(i)?;
-- 
2.43.0


From 2527c67b3c00a6b09da99d43d2481c42a6aca452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:37 +0000
Subject: [PATCH 07/50] fix: lay out mermaid ER entities and flowchart nodes in
 a deterministic order

---
 src/cli/markdown/mermaid/er_diagram.rs |  4 ++--
 src/cli/markdown/mermaid/flowchart.rs  | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/cli/markdown/mermaid/er_diagram.rs b/src/cli/markdown/mermaid/er_diagram.rs
index ef1ab15..50801ee 100644
--- a/src/cli/markdown/mermaid/er_diagram.rs
+++ b/src/cli/markdown/mermaid/er_diagram.rs
@@ -5,14 +5,14 @@ use crate::generator::connectors::{
     ArrowType, ConnectionSite, Connector, ConnectorLine, ConnectorType,
 };
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 /// Generate shapes and connectors for an ER diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut entities: HashMap<String, Vec<String>> = HashMap::new();
+    let mut entities: BTreeMap<String, Vec<String>> = BTreeMap::new();
     let mut relationships: Vec<(String, String, String)> = Vec::new();
     let mut current_entity = String::new();
 
diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index 3cae060..832c99d 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -21,13 +21,20 @@ fn parse_direction(first_line: &str) -> FlowDirection {
     }
 }
 
+/// Keep the first definition of each node, in order of appearance
+fn add_node(nodes: &mut Vec<FlowNode>, node: FlowNode) {
+    if !nodes.iter().any(|n| n.id == node.id) {
+        nodes.push(node);
+    }
+}
+
 /// Parse a flowchart from Mermaid code
 pub fn parse(code: &str) -> Flowchart {
     let mut lines = code.lines();
     let first_line = lines.next().unwrap_or("");
     let direction = parse_direction(first_line);
 
-    let mut nodes: HashMap<String, FlowNode> = HashMap::new();
+    let mut nodes: Vec<FlowNode> = Vec::new();
     let mut connections: Vec<FlowConnection> = Vec::new();
     let mut subgraphs: Vec<Subgraph> = Vec::new();
     let mut current_subgraph: Option<Subgraph> = None;
@@ -67,7 +74,7 @@ pub fn parse(code: &str) -> Flowchart {
             // Parse from node
             let (from_id, from_node) = parse_node_def(&from_part);
             if let Some(node) = from_node {
-                nodes.entry(from_id.clone()).or_insert(node);
+                add_node(&mut nodes, node);
                 if let Some(ref mut sg) = current_subgraph {
                     if !sg.nodes.contains(&from_id) {
                         sg.nodes.push(from_id.clone());
@@ -79,7 +86,7 @@ pub fn parse(code: &str) -> Flowchart {
             let (to_part_clean, arrow_label) = extract_arrow_label(&to_part);
             let (to_id, to_node) = parse_node_def(&to_part_clean);
             if let Some(node) = to_node {
-                nodes.entry(to_id.clone()).or_insert(node);
+                add_node(&mut nodes, node);
                 if let Some(ref mut sg) = current_subgraph {
                     if !sg.nodes.contains(&to_id) {
                         sg.nodes.push(to_id.clone());
@@ -97,7 +104,7 @@ pub fn parse(code: &str) -> Flowchart {
             // Standalone node definition
             let (id, node) = parse_node_def(line);
             if let Some(n) = node {
-                nodes.entry(id.clone()).or_insert(n);
+                add_node(&mut nodes, n);
                 if let Some(ref mut sg) = current_subgraph {
                     if !sg.nodes.contains(&id) {
                         sg.nodes.push(id);
@@ -109,7 +116,7 @@ pub fn parse(code: &str) -> Flowchart {
 
     Flowchart {
         direction,
-        nodes: nodes.into_values().collect(),
+        nodes,
         connections,
         subgraphs,
     }
-- 
2.43.0


From 69dfd66cdd58954097b917538359f10968a4f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:37 +0000
Subject: [PATCH 08/50] fix: report package validation and repair issues in a
 deterministic order

---
 src/core/package_validation/context.rs | 10 +++++-----
 src/oxml/repair.rs                     |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index b2e21f0..c4bf083 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -1,6 +1,6 @@
 //! Read-only view of a PPTX ZIP archive for validation rules.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::io::{Read, Seek};
 
 use zip::ZipArchive;
@@ -20,14 +20,14 @@ pub struct Relationship {
 
 /// Cached package contents used by validation rules.
 pub struct PackageContext {
-    pub names: std::collections::HashSet<String>,
-    rels_by_path: HashMap<String, Vec<Relationship>>,
+    pub names: BTreeSet<String>,
+    rels_by_path: BTreeMap<String, Vec<Relationship>>,
     part_cache: HashMap<String, String>,
 }
 
 impl PackageContext {
     pub fn from_archive<R: Read + Seek>(archive: &mut ZipArchive<R>) -> Self {
-        let mut names = std::collections::HashSet::new();
+        let mut names = BTreeSet::new();
         for i in 0..archive.len() {
             if let Ok(file) = archive.by_index(i)
                 && !file.is_dir() {
@@ -37,7 +37,7 @@ impl PackageContext {
 
         let mut ctx = Self {
             names,
-            rels_by_path: HashMap::new(),
+            rels_by_path: BTreeMap::new(),
             part_cache: HashMap::new(),
         };
 
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8cad2df..d3b0317 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -13,7 +13,7 @@ use crate::core::{
 };
 use crate::exc::{PptxError, Result};
 use crate::opc::Package;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::path::Path;
 
 /// Types of issues that can be detected in a PPTX file
@@ -389,7 +389,7 @@ impl PptxRepair {
 
     fn check_slide_references(&mut self) {
         // Get slides from presentation.xml.rels
-        let mut referenced_slides: HashSet<String> = HashSet::new();
+        let mut referenced_slides: BTreeSet<String> = BTreeSet::new();
         let slide_rel_type = crate::parts::relationships::RelationshipType::Slide.uri();
 
         if let Some(rels_content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
@@ -412,7 +412,7 @@ impl PptxRepair {
         }
 
         // Get actual slide files
-        let actual_slides: HashSet<String> = self
+        let actual_slides: BTreeSet<String> = self
             .package
             .part_paths()
             .iter()
-- 
2.43.0


From 030ac98599aa1d8588bb27416692cd30e925acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 09/50] fix: remove temporary files on every exit path and
 never share their names

---
 src/api.rs                 | 46 ++++++++++++--------------------------
 src/core/mod.rs            |  2 ++
 src/core/temp.rs           | 27 ++++++++++++++++++++++
 src/export/image_export.rs | 13 +++++------
 src/opc/compress.rs        | 16 +++++--------
 5 files changed, 54 insertions(+), 50 deletions(-)
 create mode 100644 src/core/temp.rs

diff --git a/src/api.rs b/src/api.rs
index aab3c39..c740fab 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -2,6 +2,7 @@
 //!
 //! High-level API for working with PowerPoint presentations.
 
+use crate::core::TempPath;
 use crate::exc::{messages, PptxError, Result};
 use crate::export::html::export_to_html;
 use crate::generator::{create_pptx_with_settings, Image, PresentationSettings, PresentationTheme, SlideContent};
@@ -180,13 +181,11 @@ impl Presentation {
         }
 
         // Create temp PDF using pure-Rust pdfrs engine
-        let temp_dir = std::env::temp_dir();
-        let temp_pdf_name = format!("ppt_rs_temp_{}.pdf", uuid::Uuid::new_v4());
-        let temp_pdf_path = temp_dir.join(&temp_pdf_name);
+        let temp_pdf = TempPath::new("ppt_rs_temp_", ".pdf");
 
         // Convert to PDF first (no LibreOffice needed)
         let bytes = crate::export::slide_render::render_to_pdf_bytes(self)?;
-        std::fs::write(&temp_pdf_path, &bytes)?;
+        std::fs::write(temp_pdf.path(), &bytes)?;
 
         // Convert PDF to PNGs using pdftoppm
         // pdftoppm -png <pdf_file> <image_prefix>
@@ -194,14 +193,11 @@ impl Presentation {
 
         let status = Command::new("pdftoppm")
             .arg("-png")
-            .arg(&temp_pdf_path)
+            .arg(temp_pdf.path())
             .arg(&prefix)
             .status()
             .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
 
-        // Cleanup temp PDF
-        let _ = std::fs::remove_file(&temp_pdf_path);
-
         if !status.success() {
             return Err(PptxError::Generic("pdftoppm conversion failed".to_string()));
         }
@@ -222,11 +218,11 @@ impl Presentation {
         }
 
         // Create temp dir for images
-        let temp_dir = std::env::temp_dir().join(format!("ppt_rs_import_{}", uuid::Uuid::new_v4()));
-        std::fs::create_dir_all(&temp_dir)?;
+        let temp_dir = TempPath::new("ppt_rs_import_", "");
+        std::fs::create_dir_all(temp_dir.path())?;
 
         // Convert PDF to PNGs
-        let prefix = temp_dir.join("page");
+        let prefix = temp_dir.path().join("page");
 
         let status = Command::new("pdftoppm")
             .arg("-png")
@@ -236,7 +232,6 @@ impl Presentation {
             .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
 
         if !status.success() {
-            let _ = std::fs::remove_dir_all(&temp_dir);
             return Err(PptxError::Generic("pdftoppm failed".to_string()));
         }
 
@@ -248,7 +243,7 @@ impl Presentation {
         }
 
         // Read dir
-        let mut entries: Vec<_> = std::fs::read_dir(&temp_dir)?
+        let mut entries: Vec<_> = std::fs::read_dir(temp_dir.path())?
             .filter_map(|e| e.ok())
             .collect();
 
@@ -293,7 +288,6 @@ impl Presentation {
             }
         }
 
-        let _ = std::fs::remove_dir_all(&temp_dir);
         Ok(pres)
     }
 
@@ -400,17 +394,11 @@ impl Presentation {
         options: &crate::opc::compress::CompressionOptions,
     ) -> Result<crate::opc::compress::CompressionResult> {
         // First save to temp file
-        let temp_dir = std::env::temp_dir();
-        let temp_path = temp_dir.join(format!("compress_{}.pptx", uuid::Uuid::new_v4()));
-        self.save(&temp_path)?;
+        let temp = TempPath::new("compress_", ".pptx");
+        self.save(temp.path())?;
 
         // Compress
-        let result = crate::opc::compress::compress_pptx(&temp_path, output_path, options);
-
-        // Cleanup
-        let _ = std::fs::remove_file(&temp_path);
-
-        result
+        crate::opc::compress::compress_pptx(temp.path(), output_path, options)
     }
 
     /// Get file size analysis
@@ -418,16 +406,10 @@ impl Presentation {
     /// Returns analysis of what contributes to file size.
     pub fn analyze_size(&self) -> Result<crate::opc::compress::PptxAnalysis> {
         // Save to temp file for analysis
-        let temp_dir = std::env::temp_dir();
-        let temp_path = temp_dir.join(format!("analyze_{}.pptx", uuid::Uuid::new_v4()));
-        self.save(&temp_path)?;
-
-        let analysis = crate::opc::compress::analyze_pptx(&temp_path);
-
-        // Cleanup
-        let _ = std::fs::remove_file(&temp_path);
+        let temp = TempPath::new("analyze_", ".pptx");
+        self.save(temp.path())?;
 
-        analysis
+        crate::opc::compress::analyze_pptx(temp.path())
     }
 }
 
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 2e3b90f..2da4b68 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -7,6 +7,7 @@ mod dimension;
 mod package_validation;
 mod placement;
 mod powerpoint_compat;
+mod temp;
 mod traits;
 mod validation;
 mod xml_utils;
@@ -18,6 +19,7 @@ pub use package_validation::{
 };
 pub use placement::ElementPlacement;
 pub use powerpoint_compat::{validate_powerpoint_structure, CompatReport};
+pub(crate) use temp::TempPath;
 pub use traits::{Positioned, Sized as ElementSized, ToXml};
 pub use validation::{
     check_required_parts, check_required_parts_with_descriptions, clamp_ratio,
diff --git a/src/core/temp.rs b/src/core/temp.rs
new file mode 100644
index 0000000..c815d53
--- /dev/null
+++ b/src/core/temp.rs
@@ -0,0 +1,27 @@
+//! Temporary files and directories that are removed on every exit path
+
+use std::path::{Path, PathBuf};
+
+/// A uniquely named path in the system temporary directory, removed on drop.
+pub(crate) struct TempPath(PathBuf);
+
+impl TempPath {
+    /// Reserve a unique name `<prefix><uuid><suffix>`; nothing is created yet.
+    pub(crate) fn new(prefix: &str, suffix: &str) -> Self {
+        TempPath(std::env::temp_dir().join(format!("{}{}{}", prefix, uuid::Uuid::new_v4(), suffix)))
+    }
+
+    pub(crate) fn path(&self) -> &Path {
+        &self.0
+    }
+}
+
+impl Drop for TempPath {
+    fn drop(&mut self) {
+        if self.0.is_dir() {
+            let _ = std::fs::remove_dir_all(&self.0);
+        } else {
+            let _ = std::fs::remove_file(&self.0);
+        }
+    }
+}
diff --git a/src/export/image_export.rs b/src/export/image_export.rs
index cd6a79a..daa8b12 100644
--- a/src/export/image_export.rs
+++ b/src/export/image_export.rs
@@ -6,6 +6,7 @@
 //! Uses LibreOffice for rendering (same approach as PDF export).
 
 use crate::api::Presentation;
+use crate::core::TempPath;
 use crate::exc::{PptxError, Result};
 use std::path::Path;
 use std::process::Command;
@@ -149,20 +150,16 @@ pub fn export_to_images<P: AsRef<Path>>(
     options: &ImageExportOptions,
 ) -> Result<Vec<std::path::PathBuf>> {
     // First save presentation to temporary PPTX file
-    let temp_dir = std::env::temp_dir();
-    let temp_pptx = temp_dir.join("temp_export.pptx");
+    let temp_dir = TempPath::new("ppt_rs_export_", "");
+    std::fs::create_dir_all(temp_dir.path())?;
+    let temp_pptx = temp_dir.path().join("temp_export.pptx");
     presentation.save(&temp_pptx)?;
 
     let output_dir = output_dir.as_ref();
     std::fs::create_dir_all(output_dir)?;
 
     // Use LibreOffice to convert to images
-    let result = export_pptx_to_images(&temp_pptx, output_dir, options);
-
-    // Cleanup temp file
-    let _ = std::fs::remove_file(&temp_pptx);
-
-    result
+    export_pptx_to_images(&temp_pptx, output_dir, options)
 }
 
 /// Export a specific slide to an image
diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bb01efb..22d1c3b 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -7,6 +7,7 @@
 //! - Optimize XML (remove unnecessary whitespace)
 
 use super::Package;
+use crate::core::TempPath;
 use crate::exc::Result;
 use std::collections::HashSet;
 use std::path::Path;
@@ -260,18 +261,13 @@ pub fn compress_pptx_in_memory(
     options: &CompressionOptions,
 ) -> Result<(Vec<u8>, CompressionResult)> {
     // Write to temp file
-    let temp_dir = std::env::temp_dir();
-    let temp_input = temp_dir.join("compress_input.pptx");
-    let temp_output = temp_dir.join("compress_output.pptx");
+    let temp_input = TempPath::new("compress_input_", ".pptx");
+    let temp_output = TempPath::new("compress_output_", ".pptx");
 
-    std::fs::write(&temp_input, data)?;
+    std::fs::write(temp_input.path(), data)?;
 
-    let result = compress_pptx(&temp_input, &temp_output, options)?;
-    let output_data = std::fs::read(&temp_output)?;
-
-    // Cleanup
-    let _ = std::fs::remove_file(&temp_input);
-    let _ = std::fs::remove_file(&temp_output);
+    let result = compress_pptx(temp_input.path(), temp_output.path(), options)?;
+    let output_data = std::fs::read(temp_output.path())?;
 
     Ok((output_data, result))
 }
-- 
2.43.0


From fad3ddd98fee025c7d2ec9c6534f64c38af50038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:22 +0000
Subject: [PATCH 10/50] fix: keep page images of an imported PDF in memory
 instead of pointing into the removed temporary directory

---
 src/api.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index c740fab..416d01a 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -5,7 +5,7 @@
 use crate::core::TempPath;
 use crate::exc::{messages, PptxError, Result};
 use crate::export::html::export_to_html;
-use crate::generator::{create_pptx_with_settings, Image, PresentationSettings, PresentationTheme, SlideContent};
+use crate::generator::{create_pptx_with_settings, Image, ImageSource, PresentationSettings, PresentationTheme, SlideContent};
 use crate::import::import_pptx;
 use std::path::Path;
 use std::process::Command;
@@ -271,7 +271,9 @@ impl Presentation {
             let path = entry.path();
             if path.extension().is_some_and(|e| e == "png") {
                 // Create slide with full screen image
-                let image = Image::from_path(&path).map_err(PptxError::Generic)?;
+                // Keep the bytes: the temporary directory is gone when this returns
+                let mut image = Image::from_path(&path).map_err(PptxError::Generic)?;
+                image.source = Some(ImageSource::Bytes(std::fs::read(&path)?));
 
                 // Add image to slide
                 // Use a default layout?
-- 
2.43.0


From e163e26fb35de46053542b931e271c1111d521bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:22 +0000
Subject: [PATCH 11/50] fix: do not underflow when recompression makes the file
 larger

---
 src/opc/compress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 22d1c3b..d4babab 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -238,7 +238,7 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
 
     let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
     let reduction_percent = if original_size > 0 {
-        ((original_size - compressed_size) as f64 / original_size as f64) * 100.0
+        ((original_size as f64 - compressed_size as f64) / original_size as f64) * 100.0
     } else {
         0.0
     };
-- 
2.43.0


From 0806a95caa9e52ee26f9348aef43b614fa2afec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 12/50] fix: chart parts follow the content model of the chart
 schema

Axes were nested in the chart element without axis references, series names and
categories used elements that do not exist there, and every point of a series
carried index 0.
---
 src/generator/charts/xml.rs | 276 ++++++++++++++++++------------------
 1 file changed, 136 insertions(+), 140 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index e849a03..f9f34e2 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -109,45 +109,90 @@ fn chart_part_footer() -> &'static str {
 </c:chartSpace>"#
 }
 
+/// Generate the series name (`c:tx`)
+fn series_name_xml(series_name: &str) -> String {
+    format!(
+        r#"
+<c:tx>
+<c:strRef>
+<c:f>Sheet1!$B$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
+</c:tx>"#,
+        escape_xml(series_name)
+    )
+}
+
+/// Generate the categories of a series (`c:cat`)
+fn categories_xml(chart: &Chart) -> String {
+    let mut xml = format!(
+        r#"
+<c:cat>
+<c:strRef>
+<c:f>Sheet1!$A$2:$A${}</c:f>
+<c:strCache>
+<c:ptCount val="{}"/>"#,
+        1 + chart.category_count(),
+        chart.category_count()
+    );
+
+    for (idx, cat) in chart.categories.iter().enumerate() {
+        xml.push_str(&format!(
+            r#"
+<c:pt idx="{}">
+<c:v>{}</c:v>
+</c:pt>"#,
+            idx, escape_xml(cat)
+        ));
+    }
+
+    xml.push_str(
+        r#"
+</c:strCache>
+</c:strRef>
+</c:cat>"#
+    );
+
+    xml
+}
+
 /// Generate series data XML
-fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
+fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
     let mut xml = format!(
         r#"
 <c:ser>
 <c:idx val="{}"/>
-<c:order val="{}"/>
-<c:title>
-<c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
-</c:tx>
-</c:title>
+<c:order val="{}"/>"#,
+        idx, idx
+    );
+    xml.push_str(&series_name_xml(series_name));
+    xml.push_str(
+        r#"
 <c:dLbls>
 <c:showVal val="0"/>
-</c:dLbls>
+</c:dLbls>"#
+    );
+    xml.push_str(&categories_xml(chart));
+    xml.push_str(&format!(
+        r#"
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B${}:$B${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-        idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len()
-    );
+        2 + idx, 2 + idx + values.len()
+    ));
 
-    for value in values {
+    for (i, value) in values.iter().enumerate() {
         xml.push_str(&format!(
             r#"
-<c:pt idx="0">
+<c:pt idx="{}">
 <c:v>{}</c:v>
 </c:pt>"#,
-            value
+            i, value
         ));
     }
 
@@ -162,9 +207,16 @@ fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &
     xml
 }
 
+/// References from a chart element to its two axes
+fn axis_ids_xml() -> &'static str {
+    r#"
+<c:axId val="1"/>
+<c:axId val="2"/>"#
+}
+
 /// Generate category axis XML
-fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
-    let mut xml = format!(
+fn generate_category_axis(ax_pos: &str) -> String {
+    format!(
         r#"
 <c:catAx>
 <c:axId val="1"/>
@@ -178,39 +230,17 @@ fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
 <c:tickLblPos val="low"/>
 <c:crossAx val="2"/>
 <c:crosses val="autoZero"/>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-        ax_pos, 1 + chart.category_count(), chart.category_count()
-    );
-
-    for (idx, cat) in chart.categories.iter().enumerate() {
-        xml.push_str(&format!(
-            r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-            idx, escape_xml(cat)
-        ));
-    }
-
-    xml.push_str(
-        r#"
-</c:strCache>
-</c:strRef>
-</c:catAx>"#
-    );
-
-    xml
+</c:catAx>"#,
+        ax_pos
+    )
 }
 
 /// Generate value axis XML
-fn generate_value_axis(ax_pos: &str) -> String {
+fn generate_value_axis(ax_pos: &str, ax_id: u32, cross_id: u32) -> String {
     format!(
         r#"
 <c:valAx>
-<c:axId val="2"/>
+<c:axId val="{}"/>
 <c:scaling>
 <c:orientation val="minMax"/>
 </c:scaling>
@@ -219,10 +249,10 @@ fn generate_value_axis(ax_pos: &str) -> String {
 <c:majorGridlines/>
 <c:numFmt formatCode="General" sourceLinked="1"/>
 <c:tickLblPos val="low"/>
-<c:crossAx val="1"/>
+<c:crossAx val="{}"/>
 <c:crosses val="autoZero"/>
 </c:valAx>"#,
-        ax_pos
+        ax_id, ax_pos, cross_id
     )
 }
 
@@ -238,9 +268,10 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "l"));
-    xml.push_str(&generate_value_axis("b"));
+    xml.push_str(axis_ids_xml());
     xml.push_str("</c:barChart>");
+    xml.push_str(&generate_category_axis("l"));
+    xml.push_str(&generate_value_axis("b", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -251,15 +282,16 @@ fn generate_line_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:lineChart>
-<c:grouping val="lineMarkers"/>"#);
+<c:grouping val="standard"/>"#);
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(axis_ids_xml());
     xml.push_str("</c:lineChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -279,30 +311,29 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
 <c:ser>
 <c:idx val="0"/>
 <c:order val="0"/>
-<c:title>
 <c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
+<c:strRef>
+<c:f>Sheet1!$B$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
 </c:tx>
-</c:title>
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
+</c:dLbls>"#,
+            escape_xml(&series.name)
+        ));
+        xml.push_str(&categories_xml(chart));
+        xml.push_str(&format!(
+            r#"
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B$2:$B${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            escape_xml(&series.name),
             1 + series.values.len()
         ));
 
@@ -316,35 +347,11 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
             ));
         }
 
-        xml.push_str(&format!(
+        xml.push_str(
             r#"
 </c:numCache>
 </c:numRef>
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
-        ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
 </c:ser>"#
         );
     }
@@ -360,8 +367,7 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:doughnutChart>
-<c:varyColors val="1"/>
-<c:holeSize val="50"/>"#);
+<c:varyColors val="1"/>"#);
 
     // Doughnut chart uses first series only (like pie)
     if let Some(series) = chart.series.first() {
@@ -382,13 +388,17 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
+</c:dLbls>"#,
+            escape_xml(&series.name)
+        ));
+        xml.push_str(&categories_xml(chart));
+        xml.push_str(&format!(
+            r#"
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B$2:$B${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            escape_xml(&series.name),
             1 + series.values.len()
         ));
 
@@ -402,39 +412,17 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
             ));
         }
 
-        xml.push_str(&format!(
+        xml.push_str(
             r#"
 </c:numCache>
 </c:numRef>
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
-        ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
 </c:ser>"#
         );
     }
 
+    xml.push_str(r#"
+<c:holeSize val="50"/>"#);
     xml.push_str("</c:doughnutChart>");
     xml.push_str(chart_part_footer());
 
@@ -453,9 +441,10 @@ fn generate_area_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(axis_ids_xml());
     xml.push_str("</c:areaChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -535,9 +524,10 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
         );
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(axis_ids_xml());
     xml.push_str("</c:scatterChart>");
+    xml.push_str(&generate_value_axis("b", 1, 2));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -548,8 +538,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:bubbleChart>
-<c:varyColors val="0"/>
-<c:bubbleScale val="100"/>"#);
+<c:varyColors val="0"/>"#);
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&format!(
@@ -640,9 +629,12 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
         );
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(r#"
+<c:bubbleScale val="100"/>"#);
+    xml.push_str(axis_ids_xml());
     xml.push_str("</c:bubbleChart>");
+    xml.push_str(&generate_value_axis("b", 1, 2));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -660,9 +652,10 @@ fn generate_radar_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(axis_ids_xml());
     xml.push_str("</c:radarChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -679,9 +672,10 @@ fn generate_stock_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(axis_ids_xml());
     xml.push_str("</c:stockChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -701,8 +695,7 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(axis_ids_xml());
     xml.push_str("</c:barChart>");
 
     // Second half as lines
@@ -714,9 +707,12 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
             xml.push_str(&generate_series_data(chart, mid + idx, &series.name, &series.values));
         }
 
+        xml.push_str(axis_ids_xml());
         xml.push_str("</c:lineChart>");
     }
 
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
-- 
2.43.0


From 9e453df3b7c4cda1164ee4457512d2b527592b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 13/50] fix: bar and line charts use the direction and grouping
 of their type

---
 src/generator/charts/xml.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index f9f34e2..c6bffa3 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -260,18 +260,32 @@ fn generate_value_axis(ax_pos: &str, ax_id: u32, cross_id: u32) -> String {
 fn generate_bar_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:barChart>
-<c:barDir val="bar"/>
-<c:grouping val="clustered"/>"#);
+    let direction = chart.chart_type.bar_direction().unwrap_or("col");
+    let grouping = chart.chart_type.grouping().unwrap_or("clustered");
+    xml.push_str(&format!(
+        r#"<c:barChart>
+<c:barDir val="{}"/>
+<c:grouping val="{}"/>"#,
+        direction, grouping
+    ));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
+    if grouping != "clustered" {
+        xml.push_str(r#"
+<c:overlap val="100"/>"#);
+    }
     xml.push_str(axis_ids_xml());
     xml.push_str("</c:barChart>");
-    xml.push_str(&generate_category_axis("l"));
-    xml.push_str(&generate_value_axis("b", 2, 1));
+    if direction == "bar" {
+        xml.push_str(&generate_category_axis("l"));
+        xml.push_str(&generate_value_axis("b", 2, 1));
+    } else {
+        xml.push_str(&generate_category_axis("b"));
+        xml.push_str(&generate_value_axis("l", 2, 1));
+    }
     xml.push_str(chart_part_footer());
 
     xml
@@ -281,8 +295,9 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
 fn generate_line_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:lineChart>
-<c:grouping val="standard"/>"#);
+    let grouping = chart.chart_type.grouping().unwrap_or("standard");
+    xml.push_str(&format!(r#"<c:lineChart>
+<c:grouping val="{}"/>"#, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
-- 
2.43.0


From 7c7ff51ccd79dfc59369ea192f717a71427066b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:56 +0000
Subject: [PATCH 14/50] fix: write the embedded font list before the default
 text style

---
 src/generator/package_xml.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 2c2be8d..a7c17bd 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -376,8 +376,8 @@ pub fn create_presentation_xml_with_fonts(
     let mut xml = create_presentation_xml(title, slides, has_notes, has_handout);
     let font_xml = fonts.to_xml();
     if !font_xml.is_empty() {
-        // Insert <p:embeddedFontLst> before the closing </p:presentation>.
-        if let Some(pos) = xml.rfind("</p:presentation>") {
+        // <p:embeddedFontLst> comes before <p:defaultTextStyle>.
+        if let Some(pos) = xml.find("<p:defaultTextStyle") {
             xml.insert_str(pos, &font_xml);
         }
     }
-- 
2.43.0


From 220518b80ba63a2deb1e8b902c0021ea0361df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:56 +0000
Subject: [PATCH 15/50] fix: notes and handout master references have no id
 attribute

---
 src/oxml/editor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 105d7c5..11820b2 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -445,7 +445,7 @@ impl PresentationEditor {
             xml.push_str(
                 r#"
 <p:notesMasterIdLst>
-<p:notesMasterId id="2147483650" r:id="rId6"/>
+<p:notesMasterId r:id="rId6"/>
 </p:notesMasterIdLst>"#,
             );
         }
@@ -455,7 +455,7 @@ impl PresentationEditor {
             xml.push_str(&format!(
                 r#"
 <p:handoutMasterIdLst>
-<p:handoutMasterId id="2147483651" r:id="rId{handout_rid}"/>
+<p:handoutMasterId r:id="rId{handout_rid}"/>
 </p:handoutMasterIdLst>"#
             ));
         }
-- 
2.43.0


From fed23c93e69821fcd4a7de0b60ce52e6f24e9560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:56 +0000
Subject: [PATCH 16/50] fix: write the fill of code runs before their font

---
 src/generator/shapes_xml.rs       | 2 +-
 src/generator/slide/formatting.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 79bb212..2d9ec65 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -350,7 +350,7 @@ fn generate_text_xml_with_autofit(text: &Option<String>, width: u32, height: u32
                         r#"<a:p>
 <a:pPr algn="l"/>
 <a:r>
-<a:rPr lang="en-US" sz="1200" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill></a:rPr>
+<a:rPr lang="en-US" sz="1200" dirty="0"><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr>
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
diff --git a/src/generator/slide/formatting.rs b/src/generator/slide/formatting.rs
index 38f25db..b3ce1fc 100644
--- a/src/generator/slide/formatting.rs
+++ b/src/generator/slide/formatting.rs
@@ -119,7 +119,7 @@ pub fn generate_rich_text_runs(
         
         if segment.code {
             xml.push_str(&format!(
-                r#"<a:r><a:rPr lang="en-US" sz="{}" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="C7254E"/></a:solidFill></a:rPr><a:t>{}</a:t></a:r>"#,
+                r#"<a:r><a:rPr lang="en-US" sz="{}" dirty="0"><a:solidFill><a:srgbClr val="C7254E"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr><a:t>{}</a:t></a:r>"#,
                 size, escaped_text
             ));
         } else {
-- 
2.43.0


From e33a16a594a2c911add049eaa981722d4fa63a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:35 +0000
Subject: [PATCH 17/50] fix: shapes name geometries that exist in DrawingML

---
 src/generator/shapes.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index 01c98d9..dc6dc17 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -189,12 +189,12 @@ impl ShapeType {
             ShapeType::FlowChartDocument => "flowChartDocument",
             ShapeType::FlowChartPredefinedProcess => "flowChartPredefinedProcess",
             ShapeType::FlowChartInternalStorage => "flowChartInternalStorage",
-            ShapeType::FlowChartData => "flowChartData",
+            ShapeType::FlowChartData => "flowChartInputOutput",
             ShapeType::FlowChartInputOutput => "flowChartInputOutput",
             ShapeType::FlowChartManualInput => "flowChartManualInput",
             ShapeType::FlowChartManualOperation => "flowChartManualOperation",
             ShapeType::FlowChartConnector => "flowChartConnector",
-            ShapeType::FlowChartOffPageConnector => "flowChartOffPageConnector",
+            ShapeType::FlowChartOffPageConnector => "flowChartOffpageConnector",
             ShapeType::FlowChartPunchedCard => "flowChartPunchedCard",
             ShapeType::FlowChartPunchedTape => "flowChartPunchedTape",
             ShapeType::FlowChartSummingJunction => "flowChartSummingJunction",
@@ -215,11 +215,11 @@ impl ShapeType {
             ShapeType::CurvedLeftArrow => "curvedLeftArrow",
             ShapeType::CurvedUpArrow => "curvedUpArrow",
             ShapeType::CurvedDownArrow => "curvedDownArrow",
-            ShapeType::CurvedLeftRightArrow => "curvedLeftRightArrow",
-            ShapeType::CurvedUpDownArrow => "curvedUpDownArrow",
+            ShapeType::CurvedLeftRightArrow => "leftRightCircularArrow",
+            ShapeType::CurvedUpDownArrow => "upDownArrow",
             ShapeType::StripedRightArrow => "stripedRightArrow",
             ShapeType::NotchedRightArrow => "notchedRightArrow",
-            ShapeType::PentagonArrow => "pentArrow",
+            ShapeType::PentagonArrow => "homePlate",
             ShapeType::ChevronArrow => "chevron",
             ShapeType::RightArrowCallout => "rightArrowCallout",
             ShapeType::LeftArrowCallout => "leftArrowCallout",
@@ -234,11 +234,11 @@ impl ShapeType {
             ShapeType::Parallelogram => "parallelogram",
             ShapeType::Trapezoid => "trapezoid",
             ShapeType::NonIsoscelesTrapezoid => "nonIsoscelesTrapezoid",
-            ShapeType::IsoscelesTrapezoid => "isoTrapezoid",
+            ShapeType::IsoscelesTrapezoid => "trapezoid",
             ShapeType::Cube => "cube",
             ShapeType::Can => "can",
-            ShapeType::Cone => "cone",
-            ShapeType::Cylinder => "cylinder",
+            ShapeType::Cone => "triangle",
+            ShapeType::Cylinder => "can",
             ShapeType::Bevel => "bevel",
             ShapeType::Donut => "donut",
             ShapeType::NoSmoking => "noSmoking",
@@ -250,7 +250,7 @@ impl ShapeType {
             ShapeType::Pie => "pie",
             ShapeType::Teardrop => "teardrop",
             ShapeType::Plaque => "plaque",
-            ShapeType::MusicNote => "musicNote",
+            ShapeType::MusicNote => "actionButtonSound",
             ShapeType::PictureFrame => "frame",
             
             ShapeType::Star10 => "star10",
@@ -258,11 +258,11 @@ impl ShapeType {
             ShapeType::Star16 => "star16",
             ShapeType::Star24 => "star24",
             ShapeType::Star32 => "star32",
-            ShapeType::Seal => "seal",
-            ShapeType::Seal4 => "seal4",
-            ShapeType::Seal8 => "seal8",
-            ShapeType::Seal16 => "seal16",
-            ShapeType::Seal32 => "seal32",
+            ShapeType::Seal => "irregularSeal1",
+            ShapeType::Seal4 => "star4",
+            ShapeType::Seal8 => "star8",
+            ShapeType::Seal16 => "star16",
+            ShapeType::Seal32 => "star32",
             ShapeType::ActionButtonBlank => "actionButtonBlank",
             ShapeType::ActionButtonHome => "actionButtonHome",
             ShapeType::ActionButtonHelp => "actionButtonHelp",
-- 
2.43.0


From 85c646e5f403ca052569ae1542887b53657fd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:35 +0000
Subject: [PATCH 18/50] fix: write image effects once each and in schema order

---
 src/generator/image_effects.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generator/image_effects.rs b/src/generator/image_effects.rs
index d55e624..e0e188b 100644
--- a/src/generator/image_effects.rs
+++ b/src/generator/image_effects.rs
@@ -10,9 +10,19 @@ pub fn generate_effect_list_xml(effects: &[ImageEffect]) -> String {
         return String::new();
     }
 
+    // The schema fixes the order of the effects and allows each of them once.
     let mut xml = String::from("<a:effectLst>");
-    for effect in effects {
-        xml.push_str(&generate_effect_xml(effect));
+    for effect in [
+        ImageEffect::Blur,
+        ImageEffect::Glow,
+        ImageEffect::InnerShadow,
+        ImageEffect::Shadow,
+        ImageEffect::Reflection,
+        ImageEffect::SoftEdges,
+    ] {
+        if effects.iter().any(|e| std::mem::discriminant(e) == std::mem::discriminant(&effect)) {
+            xml.push_str(&generate_effect_xml(&effect));
+        }
     }
     xml.push_str("</a:effectLst>");
     xml
-- 
2.43.0


From f34af5f72f675806ac8050abbd2a69068873c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:35 +0000
Subject: [PATCH 19/50] fix: write embedded font references once per style and
 in schema order

---
 src/generator/slide_content/embedded_fonts.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index ef48f16..9b290c4 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -231,13 +231,15 @@ impl EmbeddedFontList {
                 ));
             }
 
-            // Font data references per style
-            for font in &variants {
-                xml.push_str(&format!(
-                    r#"<p:{} r:id="{}"/>"#,
-                    font.style.xml_element(),
-                    xml_escape(&font.relationship_id),
-                ));
+            // Font data references, one per style and in schema order
+            for style in [FontStyle::Regular, FontStyle::Bold, FontStyle::Italic, FontStyle::BoldItalic] {
+                if let Some(font) = variants.iter().find(|f| f.style == style) {
+                    xml.push_str(&format!(
+                        r#"<p:{} r:id="{}"/>"#,
+                        style.xml_element(),
+                        xml_escape(&font.relationship_id),
+                    ));
+                }
             }
 
             xml.push_str("</p:embeddedFont>");
-- 
2.43.0


From 2c862c15b3e4e8377c935e31483111816105541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:35 +0000
Subject: [PATCH 20/50] fix: the reveal transition belongs to the 2010
 extension namespace

---
 src/generator/slide_content/transition.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_content/transition.rs b/src/generator/slide_content/transition.rs
index 4039709..d4cbc7f 100644
--- a/src/generator/slide_content/transition.rs
+++ b/src/generator/slide_content/transition.rs
@@ -27,7 +27,13 @@ impl TransitionType {
             TransitionType::Push => r#"<p:transition><p:push dir="r"/></p:transition>"#.to_string(), // Default right
             TransitionType::Wipe => r#"<p:transition><p:wipe dir="r"/></p:transition>"#.to_string(), // Default right
             TransitionType::Split => r#"<p:transition><p:split dir="out" orient="horz"/></p:transition>"#.to_string(),
-            TransitionType::Reveal => r#"<p:transition><p:reveal dir="r"/></p:transition>"#.to_string(),
+            TransitionType::Reveal => concat!(
+                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006">"#,
+                r#"<mc:Choice xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main" Requires="p14">"#,
+                r#"<p:transition><p14:reveal dir="r"/></p:transition></mc:Choice>"#,
+                r#"<mc:Fallback><p:transition><p:fade/></p:transition></mc:Fallback></mc:AlternateContent>"#
+            )
+            .to_string(),
             TransitionType::Cover => r#"<p:transition><p:cover dir="r"/></p:transition>"#.to_string(),
             TransitionType::Zoom => r#"<p:transition><p:zoom dir="in"/></p:transition>"#.to_string(),
         }
-- 
2.43.0


From 5764052b4aa72ec02470821314a1c9d3b6aaf47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:46 +0000
Subject: [PATCH 21/50] fix: table rows always carry their height

---
 src/parts/table.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index 6dbade3..872bbc6 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -499,10 +499,8 @@ impl TableRowPart {
 
     /// Generate XML for this row
     pub fn to_xml(&self) -> String {
-        let height_attr = self
-            .height
-            .map(|h| format!(r#" h="{}""#, h))
-            .unwrap_or_default();
+        // `h` is a required attribute; 370840 EMU is PowerPoint's default row height
+        let height_attr = format!(r#" h="{}""#, self.height.unwrap_or(370840));
 
         let cells_xml: String = self
             .cells
-- 
2.43.0


From 320d729bd701fdc4f228f9eaedf06e89aa3b6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:36 +0000
Subject: [PATCH 22/50] fix: path gradients name the shape path type

---
 src/generator/gradients.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index 863975d..a3de7df 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -22,7 +22,7 @@ impl GradientType {
             GradientType::Linear => "lin",
             GradientType::Radial => "circle",
             GradientType::Rectangular => "rect",
-            GradientType::Path => "path",
+            GradientType::Path => "shape",
         }
     }
 }
-- 
2.43.0


From 1b09e64be02e0fefebb298059bc21db1b07ec51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:36 +0000
Subject: [PATCH 23/50] fix: double table borders are compound lines

---
 src/parts/table.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index 872bbc6..7512901 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -104,15 +104,21 @@ impl CellBorder {
         if self.style == BorderStyle::None {
             return format!("<a:{}/>\n", tag);
         }
+        // a double line is a compound line, not a dash pattern
+        let (compound, dash) = match self.style {
+            BorderStyle::Double => ("dbl", "solid"),
+            style => ("sng", style.as_str()),
+        };
         format!(
-            r#"<a:{} w="{}" cap="flat" cmpd="sng" algn="ctr">
+            r#"<a:{} w="{}" cap="flat" cmpd="{}" algn="ctr">
               <a:solidFill><a:srgbClr val="{}"/></a:solidFill>
               <a:prstDash val="{}"/>
             </a:{}>"#,
             tag,
             self.width,
+            compound,
             escape_xml(self.color.trim_start_matches('#')),
-            self.style.as_str(),
+            dash,
             tag
         )
     }
-- 
2.43.0


From 7e514124aeeea81881d76f307f8ecf32f962d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:29 +0000
Subject: [PATCH 24/50] fix: escape the type URI of custom relationships

---
 src/parts/relationships.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 06e8f53..26cfa58 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -87,7 +87,7 @@ impl Relationship {
         format!(
             r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
             crate::core::escape_xml(&self.id),
-            self.rel_type.uri(),
+            crate::core::escape_xml(self.rel_type.uri()),
             crate::core::escape_xml(&self.target)
         )
     }
-- 
2.43.0


From 0fa83325ede607e9db20908f4eece6a4e2224668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:25 +0000
Subject: [PATCH 25/50] fix: declare signature, font and ink content types in
 lazy packages

---
 src/generator/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 9c2e489..a30582c 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -988,6 +988,8 @@ fn write_content_types_lazy<W: Write + Seek>(
     );
     super::layout_parts::append_layout_content_type_overrides(&mut content_types, STANDARD_LAYOUT_COUNT);
 
+    content_types.push_str("\n</Types>");
+
     if has_digital_signature(settings) {
         append_digital_signature_content_type(&mut content_types);
     }
@@ -997,8 +999,6 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
-    content_types.push_str("\n</Types>");
-
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
-- 
2.43.0


From 95ac0f2b1c0ee839e897006e6fb624c13e4d40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:43 +0000
Subject: [PATCH 26/50] fix: declare a content type for every image extension
 in the package

---
 src/generator/package_xml.rs | 43 +++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index a7c17bd..1e6a8ac 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -25,26 +25,33 @@ const CONTENT_TYPES_HEADER: &str = r#"<?xml version="1.0" encoding="UTF-8" stand
 <Default Extension="xml" ContentType="application/xml"/>
 <Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>"#;
 
+/// Content type of an image part with the given (lower-case) file extension.
+fn image_content_type(ext: &str) -> &'static str {
+    match ext {
+        "jpg" | "jpeg" => "image/jpeg",
+        "png" => "image/png",
+        "gif" => "image/gif",
+        "bmp" => "image/bmp",
+        "tif" | "tiff" => "image/tiff",
+        "svg" => "image/svg+xml",
+        "webp" => "image/webp",
+        "emf" => "image/x-emf",
+        "wmf" => "image/x-wmf",
+        _ => "application/octet-stream",
+    }
+}
+
 fn append_image_content_type_defaults(xml: &mut String, media_exts: &[String]) {
-    let mut has_jpg = false;
-    let mut has_png = false;
-    let mut has_gif = false;
-    for ext in media_exts {
-        match ext.as_str() {
-            "jpg" | "jpeg" => has_jpg = true,
-            "png" => has_png = true,
-            "gif" => has_gif = true,
-            _ => {}
+    for (i, ext) in media_exts.iter().enumerate() {
+        // one entry per extension; the package's own extensions have theirs already
+        if media_exts[..i].contains(ext) || matches!(ext.as_str(), "rels" | "xml" | "xlsx" | "sigs" | "fntdata") {
+            continue;
         }
-    }
-    if has_jpg {
-        xml.push_str(r#"<Default Extension="jpg" ContentType="image/jpeg"/>"#);
-    }
-    if has_png {
-        xml.push_str(r#"<Default Extension="png" ContentType="image/png"/>"#);
-    }
-    if has_gif {
-        xml.push_str(r#"<Default Extension="gif" ContentType="image/gif"/>"#);
+        xml.push_str(r#"<Default Extension=""#);
+        xml.push_str(&crate::core::escape_xml(ext));
+        xml.push_str(r#"" ContentType=""#);
+        xml.push_str(image_content_type(ext));
+        xml.push_str(r#""/>"#);
     }
 }
 
-- 
2.43.0


From 10576008ab76ca7093a560d5ad82cd5ae5155465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:51 +0000
Subject: [PATCH 27/50] fix: relate the digital signature to its origin and
 type ink parts as InkML

---
 src/generator/builder.rs     | 3 +++
 src/generator/package_xml.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index a30582c..c20923a 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1372,6 +1372,9 @@ fn write_digital_signature_parts<W: Write + Seek>(
     zip.start_file("_xmlsignatures/origin.sigs", *options)?;
     zip.write_all(signature.to_origin_xml().as_bytes())?;
 
+    zip.start_file("_xmlsignatures/_rels/origin.sigs.rels", *options)?;
+    zip.write_all(super::package_xml::DIGITAL_SIGNATURE_ORIGIN_RELS_XML.as_bytes())?;
+
     zip.start_file("_xmlsignatures/sig1.xml", *options)?;
     zip.write_all(signature.to_signature_xml().as_bytes())?;
 
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 1e6a8ac..ee9bacd 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -452,6 +452,12 @@ pub fn append_digital_signature_content_type(xml: &mut String) {
     }
 }
 
+/// Relationships of the digital signature origin part: the signature it starts from.
+pub(crate) const DIGITAL_SIGNATURE_ORIGIN_RELS_XML: &str = r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
+<Relationship Id="rId1" Type="http://schemas.openxmlformats.org/package/2006/relationships/digital-signature/signature" Target="sig1.xml"/>
+</Relationships>"#;
+
 /// Append the embedded font content type default (`.fntdata`) to an existing
 /// `[Content_Types].xml` string (inserted before `</Types>`).
 pub fn append_embedded_font_content_type(xml: &mut String) {
@@ -473,7 +479,7 @@ pub fn append_ink_content_types(xml: &mut String, ink_count: usize) {
         let mut overrides = String::with_capacity(ink_count * 140);
         for i in 1..=ink_count {
             overrides.push_str(&format!(
-                "\n<Override PartName=\"/ppt/ink/ink{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.ink+xml\"/>"
+                "\n<Override PartName=\"/ppt/ink/ink{i}.xml\" ContentType=\"application/inkml+xml\"/>"
             ));
         }
         xml.insert_str(pos, &overrides);
-- 
2.43.0


From 500e29808d0842980cff284f4b17e2cb17052d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:08 +0000
Subject: [PATCH 28/50] fix: keep slide relationship ids aligned when an image
 cannot be read

---
 src/generator/builder.rs     | 19 ++++++++++++-------
 src/generator/package_xml.rs | 21 ++++++++++++++-------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index c20923a..48cf3a4 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -72,13 +72,18 @@ fn build_media_registry_lazy(slides: &dyn LazySlideSource) -> MediaRegistry {
     registry
 }
 
-fn slide_image_rel_targets(slide: &SlideContent, registry: &MediaRegistry) -> Vec<(usize, String)> {
+/// Media part of every image of the slide, in slide order; `None` for an image whose bytes
+/// cannot be read (it keeps its relationship id, so the ids that follow stay aligned).
+fn slide_image_rel_targets(
+    slide: &SlideContent,
+    registry: &MediaRegistry,
+) -> Vec<Option<(usize, String)>> {
     let mut images = Vec::with_capacity(slide.images.len());
     for image in &slide.images {
-        if let Some(bytes) = image.get_bytes()
-            && let Some(num) = registry.lookup_number(&bytes, &image.extension()) {
-                images.push((num, image.extension()));
-            }
+        images.push(image.get_bytes().and_then(|bytes| {
+            let ext = image.extension();
+            registry.lookup_number(&bytes, &ext).map(|num| (num, ext))
+        }));
     }
     images
 }
@@ -1046,7 +1051,7 @@ fn write_slide_packages_lazy<W: Write + Seek>(
         let slide_num = i + 1;
         let layout_number = resolve_layout_number(&slide, template);
         let images = slide_image_rel_targets(&slide, &media_registry);
-        let image_count = images.len();
+        let image_count = slide.images.len();
 
         let start_rid = slide_content_rel_start(slide.notes.is_some(), image_count);
         let mut chart_rids = Vec::with_capacity(slide.charts.len());
@@ -1231,7 +1236,7 @@ fn write_slide_relationships_extended<W: Write + Seek>(
                 let slide_num = i + 1;
                 let layout_number = resolve_layout_number(slide, template);
                 let images = slide_image_rel_targets(slide, &media_registry);
-                let image_count = images.len();
+                let image_count = slide.images.len();
                 let notes_part = if slide.notes.is_some() {
                     notes_part_num += 1;
                     Some(notes_part_num)
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ee9bacd..5e1da41 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -535,7 +535,7 @@ pub fn create_slide_rels_xml_with_images(
     has_notes: bool,
     notes_part_num: usize,
     chart_rels: &[(String, String)],
-    images: &[(usize, String)],
+    images: &[Option<(usize, String)>],
     hyperlink_rels: &[String],
     ink_rel: Option<(usize, usize)>,
 ) -> String {
@@ -561,14 +561,21 @@ pub fn create_slide_rels_xml_with_images(
         next_rid += 1;
     }
 
-    for (i, (image_num, ext)) in images.iter().enumerate() {
+    for (i, image) in images.iter().enumerate() {
         xml.push_str("\n<Relationship Id=\"rId");
         append_usize(&mut xml, next_rid + i);
-        xml.push_str("\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/image\" Target=\"../media/image");
-        append_usize(&mut xml, *image_num);
-        xml.push('.');
-        xml.push_str(&escape_xml(ext));
-        xml.push_str("\"/>");
+        xml.push_str("\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/image\" Target=\"");
+        match image {
+            Some((image_num, ext)) => {
+                xml.push_str("../media/image");
+                append_usize(&mut xml, *image_num);
+                xml.push('.');
+                xml.push_str(&escape_xml(ext));
+                xml.push_str("\"/>");
+            }
+            // no media part: the id still has to resolve
+            None => xml.push_str("NULL\" TargetMode=\"External\"/>"),
+        }
     }
 
     for (rid, target) in chart_rels {
-- 
2.43.0


From ddb8fb84818fef0518848f027b4531f14f307dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:42 +0000
Subject: [PATCH 29/50] fix: relate slide jumps as slides and show jumps by
 action only

---
 src/generator/builder.rs    |  1 +
 src/generator/hyperlinks.rs | 24 +++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 48cf3a4..18c005d 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -97,6 +97,7 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
         .shapes
         .iter()
         .filter_map(|s| s.hyperlink.as_ref())
+        .filter(|h| h.action.needs_relationship())
         .filter_map(|h| {
             h.r_id
                 .as_ref()
diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 11eadd5..1b8d56a 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -88,9 +88,23 @@ impl HyperlinkAction {
         )
     }
 
+    /// Whether the action names its target through a relationship. The jumps within a running
+    /// show are described by the action alone.
+    pub fn needs_relationship(&self) -> bool {
+        !matches!(
+            self,
+            HyperlinkAction::FirstSlide
+                | HyperlinkAction::LastSlide
+                | HyperlinkAction::NextSlide
+                | HyperlinkAction::PreviousSlide
+                | HyperlinkAction::EndShow
+        )
+    }
+
     /// Get the action type for internal links
     pub fn action_type(&self) -> Option<&'static str> {
         match self {
+            HyperlinkAction::Slide(_) => Some("ppaction://hlinksldjump"),
             HyperlinkAction::FirstSlide => Some("ppaction://hlinkshowjump?jump=firstslide"),
             HyperlinkAction::LastSlide => Some("ppaction://hlinkshowjump?jump=lastslide"),
             HyperlinkAction::NextSlide => Some("ppaction://hlinkshowjump?jump=nextslide"),
@@ -161,6 +175,7 @@ impl Hyperlink {
 
 /// Generate hyperlink XML for text run
 pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
+    let r_id = if hyperlink.action.needs_relationship() { r_id } else { "" };
     let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
@@ -182,6 +197,7 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
 /// Generate hyperlink XML for shape
 pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
+    let r_id = if hyperlink.action.needs_relationship() { r_id } else { "" };
     let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, escape_xml(r_id));
 
     if let Some(tooltip) = &hyperlink.tooltip {
@@ -209,9 +225,15 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
         ""
     };
 
+    let kind = match hyperlink.action {
+        HyperlinkAction::Slide(_) => "slide",
+        _ => "hyperlink",
+    };
+
     format!(
-        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
+        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/{}" Target="{}"{}/>"#,
         escape_xml(r_id),
+        kind,
         escape_xml(&target),
         target_mode
     )
-- 
2.43.0


From bbb2d0df32264f9df80a0b150050851bf7d1345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:28 +0000
Subject: [PATCH 30/50] fix: finishing an ImageBuilder with an effect or crop
 keeps the crop and effects set before

---
 src/generator/images.rs | 120 ++++++++--------------------------------
 1 file changed, 24 insertions(+), 96 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1059aca..1325b51 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -593,130 +593,58 @@ impl ImageBuilder {
     
     /// Build with crop
     pub fn build_with_crop(self, left: f64, top: f64, right: f64, bottom: f64) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: Some(Crop::new(left, top, right, bottom)),
-            effects: Vec::new(),
-            alt_text: None,
-        }
+        let mut image = self.build();
+        image.crop = Some(Crop::new(left, top, right, bottom));
+        image
     }
     
     /// Build with shadow effect
     pub fn build_with_shadow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Shadow],
-            alt_text: None,
-        }
+        let mut image = self.build();
+        image.effects.push(ImageEffect::Shadow);
+        image
     }
     
     /// Build with reflection effect
     pub fn build_with_reflection(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Reflection],
-            alt_text: None,
-        }
+        let mut image = self.build();
+        image.effects.push(ImageEffect::Reflection);
+        image
     }
     
     /// Build with both shadow and reflection effects
     pub fn build_with_effects(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Shadow, ImageEffect::Reflection],
-            alt_text: None,
-        }
+        let mut image = self.build();
+        image.effects.extend([ImageEffect::Shadow, ImageEffect::Reflection]);
+        image
     }
     
     /// Build with glow effect
     pub fn build_with_glow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Glow],
-            alt_text: None,
-        }
+        let mut image = self.build();
+        image.effects.push(ImageEffect::Glow);
+        image
     }
     
     /// Build with soft edges effect
     pub fn build_with_soft_edges(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::SoftEdges],
-            alt_text: None,
-        }
+        let mut image = self.build();
+        image.effects.push(ImageEffect::SoftEdges);
+        image
     }
     
     /// Build with inner shadow effect
     pub fn build_with_inner_shadow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::InnerShadow],
-            alt_text: None,
-        }
+        let mut image = self.build();
+        image.effects.push(ImageEffect::InnerShadow);
+        image
     }
     
     /// Build with blur effect
     pub fn build_with_blur(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Blur],
-            alt_text: None,
-        }
+        let mut image = self.build();
+        image.effects.push(ImageEffect::Blur);
+        image
     }
 }
 
-- 
2.43.0


From 910475717401409aea9de2fc307b12b21ee3fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:10 +0000
Subject: [PATCH 31/50] fix: underlining the slide content takes effect in the
 content layouts

---
 src/generator/slide_xml/layouts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 95c0224..1feb0fd 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -242,7 +242,7 @@ pub fn create_title_and_big_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
@@ -325,7 +325,7 @@ pub fn create_two_column_slide(
         content_size,
         content.content_bold,
         content.content_italic,
-        false,
+        content.content_underline,
         content.content_color.as_deref(),
     );
 
@@ -504,7 +504,7 @@ pub fn create_title_and_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
-- 
2.43.0


From 40d3579ab5daefe694b8c773d6233fe0b0e87340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:12 +0000
Subject: [PATCH 32/50] fix: a slide's table is written in every layout

---
 src/generator/slide_xml/layouts.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 1feb0fd..ef9b2ce 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -56,6 +56,14 @@ fn generate_bullet_paragraph_from_point(
     )
 }
 
+/// Render the slide's table, which keeps its own position, in layouts without a table placeholder
+fn push_table(xml: &mut String, content: &SlideContent, id: usize) {
+    if let Some(ref table) = content.table {
+        xml.push('\n');
+        xml.push_str(&crate::generator::table::generate_table_xml(table, id));
+    }
+}
+
 /// Create a blank slide
 pub fn create_blank_slide(
     content: &SlideContent,
@@ -63,6 +71,7 @@ pub fn create_blank_slide(
     ink_rel_id: Option<&str>,
 ) -> String {
     let mut xml = String::from(SLIDE_HEADER);
+    push_table(&mut xml, content, 3);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
@@ -95,6 +104,7 @@ pub fn create_title_only_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    push_table(&mut xml, content, 3);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
@@ -127,6 +137,7 @@ pub fn create_section_header_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    push_table(&mut xml, content, 3);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
@@ -159,6 +170,7 @@ pub fn create_centered_title_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    push_table(&mut xml, content, 3);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
@@ -265,6 +277,7 @@ pub fn create_title_and_big_content_slide(
         );
     }
 
+    push_table(&mut xml, content, 5);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
@@ -417,6 +430,7 @@ pub fn create_two_column_slide(
         }
     }
 
+    push_table(&mut xml, content, 5);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
-- 
2.43.0


From e6cae400b0e3e00ea25d8cd6d8a4b32e99620fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:12 +0000
Subject: [PATCH 33/50] fix: web2ppt applies the configured font sizes

---
 src/web2ppt/converter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/web2ppt/converter.rs b/src/web2ppt/converter.rs
index cb3b4df..9f365f3 100644
--- a/src/web2ppt/converter.rs
+++ b/src/web2ppt/converter.rs
@@ -136,6 +136,12 @@ impl Web2Ppt {
             slides.truncate(self.config.max_slides);
         }
 
+        // Apply the configured font sizes to the content slides
+        for slide in slides.iter_mut().skip(1) {
+            slide.title_size = Some(self.config.title_font_size);
+            slide.content_size = Some(self.config.content_font_size);
+        }
+
         Ok(slides)
     }
 
-- 
2.43.0


From b2ccd060684de4932ab671bc130b7338ba254267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:45 +0000
Subject: [PATCH 34/50] fix: a theme with only its fonts changed is not
 replaced by the Office theme

---
 src/generator/presentation_theme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 89aee71..5f58898 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -233,7 +233,7 @@ impl PresentationTheme {
 
     /// Generate `ppt/theme/theme1.xml` content using the full Office theme template.
     pub fn to_theme_xml(&self) -> String {
-        if self.name == "Office Theme" && self.colors == ThemeColorScheme::office() {
+        if *self == Self::office() {
             return office_theme_xml().to_string();
         }
 
-- 
2.43.0


From 12266932eaeb7c090a8733b296b13d76424aa113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 35/50] fix: HTML export escapes titles, bullets, language and
 file names

---
 src/export/html.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index 8aad9a2..f75fa10 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -69,7 +69,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
     html.push_str("<!DOCTYPE html>\n<html>\n<head>\n");
     html.push_str("<meta charset=\"UTF-8\">\n");
     html.push_str("<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n");
-    html.push_str(&format!("<title>{}</title>\n", presentation.get_title()));
+    html.push_str(&format!("<title>{}</title>\n", escape_html(presentation.get_title())));
 
     // Enhanced CSS
     html.push_str("<style>\n");
@@ -97,7 +97,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
 
     // Title Slide (Presentation Title)
     html.push_str("<div class=\"slide title-slide\" data-slide=\"0\">\n");
-    html.push_str(&format!("<h1>{}</h1>\n", presentation.get_title()));
+    html.push_str(&format!("<h1>{}</h1>\n", escape_html(presentation.get_title())));
     html.push_str("</div>\n");
 
     // Slides
@@ -128,7 +128,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     html.push_str(&format!("<div class=\"slide-number\">{}</div>\n", index));
 
     // Title
-    html.push_str(&format!("<h2>{}</h2>\n", slide.title));
+    html.push_str(&format!("<h2>{}</h2>\n", escape_html(&slide.title)));
 
     // Content Container
     html.push_str("<div class=\"content\">\n");
@@ -137,7 +137,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     if !slide.content.is_empty() {
         html.push_str("<ul>\n");
         for item in &slide.content {
-            html.push_str(&format!("<li>{}</li>\n", item));
+            html.push_str(&format!("<li>{}</li>\n", escape_html(item)));
         }
         html.push_str("</ul>\n");
     }
@@ -157,7 +157,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     // Code Blocks
     for code in &slide.code_blocks {
         if options.syntax_highlight {
-            html.push_str(&format!("<pre><code class=\"language-{}\">", code.language));
+            html.push_str(&format!("<pre><code class=\"language-{}\">", escape_html(&code.language)));
         } else {
             html.push_str("<pre><code>");
         }
@@ -222,14 +222,14 @@ fn render_image_with_options(image: &Image, options: &HtmlExportOptions) -> Opti
 
         Some(format!(
             "<div class=\"image-container\"><img src=\"{}\" alt=\"{}\" /></div>\n",
-            filepath, image.filename
+            escape_html(&filepath), escape_html(&image.filename)
         ))
     } else {
         // Use base64 encoding
         let b64 = base64_encode(&bytes);
         Some(format!(
             "<div class=\"image-container\"><img src=\"data:{};base64,{}\" alt=\"{}\" /></div>\n",
-            mime, b64, image.filename
+            mime, b64, escape_html(&image.filename)
         ))
     }
 }
-- 
2.43.0


From 64ff53550503d27c7ff15cc50ebdf431777fbf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:16 +0000
Subject: [PATCH 36/50] fix: HTML export writes a table's cells instead of a
 placeholder

---
 src/export/html.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index f75fa10..526c43c 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -178,16 +178,26 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
 }
 
 /// Render a table as HTML
-fn render_table_html(_table: &crate::generator::Table) -> String {
+fn render_table_html(table: &crate::generator::Table) -> String {
     let mut html = String::new();
     html.push_str("<table class=\"ppt-table\">\n");
-
-    // Render rows (assuming table has row data structure)
-    // This is a simplified version - you may need to adapt based on actual Table structure
     html.push_str("<tbody>\n");
-    html.push_str("<tr><td>Table content</td></tr>\n"); // Placeholder
+    for row in &table.rows {
+        html.push_str("<tr>");
+        // Cells covered by a merged cell are not part of an HTML row
+        for cell in row.cells.iter().filter(|c| !c.h_merge && !c.v_merge) {
+            html.push_str("<td");
+            if let Some(span) = cell.grid_span {
+                html.push_str(&format!(" colspan=\"{}\"", span));
+            }
+            if let Some(span) = cell.row_span {
+                html.push_str(&format!(" rowspan=\"{}\"", span));
+            }
+            html.push_str(&format!(">{}</td>", escape_html(&cell.text)));
+        }
+        html.push_str("</tr>\n");
+    }
     html.push_str("</tbody>\n");
-
     html.push_str("</table>\n");
     html
 }
-- 
2.43.0


From 9144765bc4d47e935b504b9d9d5620df8a04bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:16 +0000
Subject: [PATCH 37/50] fix: Markdown front matter does not quote a YAML block
 scalar

---
 src/export/md.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/export/md.rs b/src/export/md.rs
index b5f802b..1a9c148 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -94,7 +94,12 @@ pub fn export_to_markdown_with_options(
     // YAML frontmatter
     if options.include_frontmatter {
         md.push_str("---\n");
-        md.push_str(&format!("title: \"{}\"\n", escape_yaml(presentation.get_title())));
+        let title = escape_yaml(presentation.get_title());
+        if title.starts_with("|\n") {
+            md.push_str(&format!("title: {}\n", title));
+        } else {
+            md.push_str(&format!("title: \"{}\"\n", title));
+        }
         md.push_str(&format!("slides: {}\n", presentation.slide_count()));
         md.push_str("generator: ppt-rs\n");
         md.push_str("---\n\n");
-- 
2.43.0


From 3788d7bd1e511a2fe8f0ec1b31d2d8e2e091b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:06 +0000
Subject: [PATCH 38/50] fix: Markdown export escapes titles, line breaks and
 table pipes

---
 src/export/md.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/export/md.rs b/src/export/md.rs
index 1a9c148..b98e8b8 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -106,7 +106,7 @@ pub fn export_to_markdown_with_options(
     }
 
     // Presentation title as main heading
-    md.push_str(&format!("# {}\n\n", presentation.get_title()));
+    md.push_str(&format!("# {}\n\n", escape_markdown_line(presentation.get_title())));
 
     // Export each slide
     for (i, slide) in presentation.slides().iter().enumerate() {
@@ -119,15 +119,15 @@ pub fn export_to_markdown_with_options(
 
         // Slide number header
         if options.include_slide_numbers {
-            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_markdown(&slide.title)));
+            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_markdown_line(&slide.title)));
         } else {
-            md.push_str(&format!("## {}\n\n", escape_markdown(&slide.title)));
+            md.push_str(&format!("## {}\n\n", escape_markdown_line(&slide.title)));
         }
 
         // Bullet content
         if !slide.content.is_empty() {
             for item in &slide.content {
-                md.push_str(&format!("- {}\n", escape_markdown(item)));
+                md.push_str(&format!("- {}\n", escape_markdown(item).replace('\n', "\n  ")));
             }
             md.push('\n');
         }
@@ -170,7 +170,7 @@ pub fn export_to_markdown_with_options(
         if options.include_notes && has_notes {
             md.push_str("**Notes:**\n\n");
             if let Some(notes) = &slide.notes {
-                md.push_str(&format!("> {}\n\n", escape_markdown(notes)));
+                md.push_str(&format!("> {}\n\n", escape_markdown(notes).replace('\n', "\n> ")));
             }
         }
     }
@@ -186,7 +186,7 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
     if let Some(first_row) = table.rows.first() {
         md.push_str("| ");
         for cell in &first_row.cells {
-            md.push_str(&escape_markdown(&cell.text));
+            md.push_str(&escape_markdown_line(&cell.text).replace('|', "\\|"));
             md.push_str(" | ");
         }
         md.push('\n');
@@ -202,7 +202,7 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
         for row in table.rows.iter().skip(1) {
             md.push_str("| ");
             for cell in &row.cells {
-                md.push_str(&escape_markdown(&cell.text));
+                md.push_str(&escape_markdown_line(&cell.text).replace('|', "\\|"));
                 md.push_str(" | ");
             }
             md.push('\n');
@@ -225,6 +225,11 @@ fn escape_markdown(text: &str) -> String {
         .replace('>', "\\>")
 }
 
+/// Escape special Markdown characters in text that has to stay on one line (headings, table cells)
+fn escape_markdown_line(text: &str) -> String {
+    escape_markdown(text).replace('\r', " ").replace('\n', " ")
+}
+
 /// Escape special YAML characters in frontmatter
 fn escape_yaml(text: &str) -> String {
     if text.contains('\n') || text.contains('"') || text.contains('\\') {
-- 
2.43.0


From 7da20e0eabcac5e4245bba20368185b6485b6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 39/50] fix: nesting depth of web pages is bounded

---
 src/web2ppt/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/web2ppt/parser.rs b/src/web2ppt/parser.rs
index e54a2fb..1aa14f1 100644
--- a/src/web2ppt/parser.rs
+++ b/src/web2ppt/parser.rs
@@ -396,8 +396,9 @@ impl WebParser {
         let no_recurse_tags = ["p", "li", "pre", "code", "img", "table", "blockquote", "h1", "h2", "h3", "h4", "h5", "h6"];
         if !no_recurse_tags.contains(&tag_name) {
             for child in element.children() {
-                if let Some(child_elem) = ElementRef::wrap(child) {
-                    self.walk_element(&child_elem, content, depth + 1);
+                // Deeper nesting than a page can sensibly have is not followed
+                if let (Some(child_elem), Some(child_depth)) = (ElementRef::wrap(child), depth.checked_add(1)) {
+                    self.walk_element(&child_elem, content, child_depth);
                 }
             }
         }
-- 
2.43.0


From 0419febd89a59fb3268155ebd9710db519a1f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 40/50] fix: XML nested too deeply for the recursive element
 tree is rejected

---
 src/oxml/xmlchemy.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 0404cb8..148a6d8 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -7,6 +7,9 @@ use std::collections::HashMap;
 use std::io::Read;
 use xml::reader::{EventReader, XmlEvent};
 
+/// Deepest element nesting accepted; the element tree is walked and dropped recursively
+const MAX_XML_DEPTH: usize = 1024;
+
 /// Represents an XML element with attributes and children
 #[derive(Debug, Clone)]
 pub struct XmlElement {
@@ -166,6 +169,11 @@ impl XmlParser {
                         element.set_attr(&attr_name, &attr.value);
                     }
 
+                    if stack.len() >= MAX_XML_DEPTH {
+                        return Err(PptxError::XmlParse(format!(
+                            "elements are nested more than {MAX_XML_DEPTH} levels deep"
+                        )));
+                    }
                     stack.push(element);
                 }
                 Ok(XmlEvent::EndElement { .. }) => {
-- 
2.43.0


From a4ac6550751582fc9a0ee8eeadda5bd93b6f48cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:05 +0000
Subject: [PATCH 41/50] fix: title and content sizes of the layout generators
 are written in hundredths of a point

---
 src/generator/layouts/centered_title.rs | 2 +-
 src/generator/layouts/title_content.rs  | 8 ++++----
 src/generator/layouts/title_only.rs     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generator/layouts/centered_title.rs b/src/generator/layouts/centered_title.rs
index e89ca06..fc83f02 100644
--- a/src/generator/layouts/centered_title.rs
+++ b/src/generator/layouts/centered_title.rs
@@ -12,7 +12,7 @@ pub struct CenteredTitleLayout;
 impl CenteredTitleLayout {
     /// Generate centered title slide XML
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(TITLE_FONT_SIZE / 100 * 100);
+        let title_size = content.title_size.map_or(TITLE_FONT_SIZE, |points| points * 100);
         let title_props = generate_text_props(
             title_size,
             content.title_bold,
diff --git a/src/generator/layouts/title_content.rs b/src/generator/layouts/title_content.rs
index 2507278..3f07220 100644
--- a/src/generator/layouts/title_content.rs
+++ b/src/generator/layouts/title_content.rs
@@ -16,8 +16,8 @@ pub struct TitleContentLayout;
 impl TitleContentLayout {
     /// Generate title and content slide XML
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(TITLE_FONT_SIZE / 100 * 100);
-        let content_size = content.content_size.unwrap_or(CONTENT_FONT_SIZE / 100 * 100);
+        let title_size = content.title_size.map_or(TITLE_FONT_SIZE, |points| points * 100);
+        let content_size = content.content_size.map_or(CONTENT_FONT_SIZE, |points| points * 100);
 
         let title_props = generate_text_props(
             title_size,
@@ -119,8 +119,8 @@ pub struct TitleBigContentLayout;
 impl TitleBigContentLayout {
     /// Generate title and big content slide XML
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(TITLE_FONT_SIZE / 100 * 100);
-        let content_size = content.content_size.unwrap_or(CONTENT_FONT_SIZE / 100 * 100);
+        let title_size = content.title_size.map_or(TITLE_FONT_SIZE, |points| points * 100);
+        let content_size = content.content_size.map_or(CONTENT_FONT_SIZE, |points| points * 100);
 
         let title_props = generate_text_props(
             title_size,
diff --git a/src/generator/layouts/title_only.rs b/src/generator/layouts/title_only.rs
index 1919631..146554c 100644
--- a/src/generator/layouts/title_only.rs
+++ b/src/generator/layouts/title_only.rs
@@ -12,7 +12,7 @@ pub struct TitleOnlyLayout;
 impl TitleOnlyLayout {
     /// Generate title-only slide XML
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(TITLE_FONT_SIZE / 100 * 100);
+        let title_size = content.title_size.map_or(TITLE_FONT_SIZE, |points| points * 100);
         let title_props = generate_text_props(
             title_size,
             content.title_bold,
-- 
2.43.0


From e88dc6ad08bfbc7e2eadfac6637ed9ce6033571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:28 +0000
Subject: [PATCH 42/50] fix: colour texts that are not ASCII no longer panic
 when cut into hex pairs

---
 src/elements/color.rs       | 2 +-
 src/export/slide_render.rs  | 2 +-
 src/generator/shapes_xml.rs | 2 +-
 src/helpers/colors.rs       | 4 ++--
 src/helpers/mod.rs          | 2 +-
 src/import/html.rs          | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/elements/color.rs b/src/elements/color.rs
index 3216b85..81b0b85 100644
--- a/src/elements/color.rs
+++ b/src/elements/color.rs
@@ -21,7 +21,7 @@ impl RgbColor {
     /// Parse from hex string (e.g., "FF0000" or "#FF0000")
     pub fn from_hex(hex: &str) -> Option<Self> {
         let hex = hex.trim_start_matches('#');
-        if hex.len() != 6 {
+        if hex.len() != 6 || !hex.is_ascii() {
             return None;
         }
         let r = u8::from_str_radix(&hex[0..2], 16).ok()?;
diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 9e4bb57..234f13a 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -63,7 +63,7 @@ fn font_name(bold: bool, italic: bool) -> &'static str {
 
 fn hex_to_rgb(hex: &str) -> (f32, f32, f32) {
     let h = hex.trim_start_matches('#');
-    if h.len() == 6 {
+    if h.len() == 6 && h.is_ascii() {
         let r = u8::from_str_radix(&h[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&h[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&h[4..6], 16).unwrap_or(0);
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 2d9ec65..f89b97a 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -313,7 +313,7 @@ fn estimate_wrapped_lines(_text: &str, lines: &[&str]) -> (f64, f64) {
 /// Calculate if a color is dark (needs white text) or light (needs black text)
 fn is_dark_color(hex_color: &str) -> bool {
     let hex = hex_color.trim_start_matches('#');
-    if hex.len() < 6 {
+    if hex.len() < 6 || !hex.is_ascii() {
         return false; // Default to light
     }
     
diff --git a/src/helpers/colors.rs b/src/helpers/colors.rs
index 95c0989..6441f46 100644
--- a/src/helpers/colors.rs
+++ b/src/helpers/colors.rs
@@ -31,12 +31,12 @@ impl ColorValue {
     /// Create a color from a hex string (with or without #)
     pub fn from_hex(hex: &str) -> Self {
         let hex = hex.trim_start_matches('#');
-        if hex.len() == 6 {
+        if hex.len() == 6 && hex.is_ascii() {
             let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
             let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
             let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
             Self::rgb(r, g, b)
-        } else if hex.len() == 8 {
+        } else if hex.len() == 8 && hex.is_ascii() {
             let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
             let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
             let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
diff --git a/src/helpers/mod.rs b/src/helpers/mod.rs
index 50a7bff..4c6babf 100644
--- a/src/helpers/mod.rs
+++ b/src/helpers/mod.rs
@@ -229,7 +229,7 @@ pub fn rgb(r: u8, g: u8, b: u8) -> Color {
 /// ```
 pub fn hex(color: &str) -> Color {
     let color = color.trim_start_matches('#');
-    if color.len() == 6 {
+    if color.len() == 6 && color.is_ascii() {
         let r = u8::from_str_radix(&color[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&color[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&color[4..6], 16).unwrap_or(0);
diff --git a/src/import/html.rs b/src/import/html.rs
index 34126f6..1765e92 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -229,7 +229,7 @@ fn parse_css_color(value: &str) -> Option<String> {
         let hex = match hex.len() {
             3 => hex.chars().map(|c| format!("{c}{c}")).collect::<String>(),
             6 => hex.to_string(),
-            8 => hex[..6].to_string(), // ignore alpha
+            8 if hex.is_ascii() => hex[..6].to_string(), // ignore alpha
             _ => return None,
         };
         Some(hex.to_uppercase())
-- 
2.43.0


From 03a284edf4df78a953becc37d5f6104640a9b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:28 +0000
Subject: [PATCH 43/50] fix: inline HTML whose closing tag text precedes its
 '>' no longer panics in the Markdown parser

---
 src/cli/markdown/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index e6afe33..007fc6e 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -235,7 +235,7 @@ impl MarkdownParser {
                     // Highlight syntax: ==text== or <ins>text</ins>
                     if let Some(start) = html_str.find(">") {
                         if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                            let text = html_str.get(start + 1..end).unwrap_or("");
                             self.push_text(&format!("=={}==", text));
                         }
                     }
@@ -243,7 +243,7 @@ impl MarkdownParser {
                     // Subscript
                     if let Some(start) = html_str.find(">") {
                         if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                            let text = html_str.get(start + 1..end).unwrap_or("");
                             self.push_text(&format!("~{}~", text));
                         }
                     }
@@ -251,7 +251,7 @@ impl MarkdownParser {
                     // Superscript
                     if let Some(start) = html_str.find(">") {
                         if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                            let text = html_str.get(start + 1..end).unwrap_or("");
                             self.push_text(&format!("^{}^", text));
                         }
                     }
-- 
2.43.0


From eb7943511bb14e8ff13b984e06a1e71f6c2a2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:51 +0000
Subject: [PATCH 44/50] fix: compression keeps media that any relationship part
 refers to

---
 src/opc/compress.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index d4babab..a80046a 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -284,17 +284,14 @@ fn remove_unused_media(package: &mut Package) -> Result<usize> {
     let mut referenced = HashSet::new();
     let mut removed = 0;
 
-    // Find all media references in slide files
+    // Media is referenced from the relationship parts of slides, layouts, masters, ...
     for path in package.part_paths() {
-        if path.starts_with("ppt/slides/slide") && path.ends_with(".xml")
+        if path.ends_with(".rels")
             && let Some(content) = package.get_part_string(path) {
-                // Look for media references like rId5, image1.png, etc.
                 for media_path in &media_paths {
-                    let filename = Path::new(media_path)
-                        .file_name()
-                        .and_then(|n| n.to_str())
-                        .unwrap_or("");
-                    if content.contains(filename) || content.contains(&media_path[4..]) {
+                    // Targets are "../media/image1.png" or "/ppt/media/image1.png"
+                    let target = media_path.strip_prefix("ppt/").unwrap_or(media_path);
+                    if content.contains(target) {
                         referenced.insert(media_path.clone());
                     }
                 }
-- 
2.43.0


From 2daea1a602563c1b112e9043ab55a62cf937d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:51 +0000
Subject: [PATCH 45/50] fix: four or five image bytes that are no PNG or JPEG
 no longer panic in ImageBuilder::auto

---
 src/generator/images.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1325b51..6674be5 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -478,11 +478,11 @@ impl ImageBuilder {
         
         // Detect format from magic bytes
         let format = if data.len() >= 4 {
-            if &data[0..4] == b"\x89PNG" {
+            if data.starts_with(b"\x89PNG") {
                 "PNG"
-            } else if data.len() >= 2 && &data[0..2] == b"\xFF\xD8" {
+            } else if data.starts_with(b"\xFF\xD8") {
                 "JPEG"
-            } else if data.len() >= 6 && &data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a" {
+            } else if data.starts_with(b"GIF89a") || data.starts_with(b"GIF87a") {
                 "GIF"
             } else {
                 "PNG" // default
-- 
2.43.0


From 466db910f49b5dc4322f921e4b162af78be6c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:08 +0000
Subject: [PATCH 46/50] fix: tables without columns no longer divide by zero

---
 src/generator/table/style.rs | 2 +-
 src/helpers/tables.rs        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/generator/table/style.rs b/src/generator/table/style.rs
index 24ed8f0..9fd62ec 100644
--- a/src/generator/table/style.rs
+++ b/src/generator/table/style.rs
@@ -29,7 +29,7 @@ pub fn header_cell(text: &str) -> TableCell {
 /// Build a positioned table from string rows with optional header styling.
 pub fn table_from_string_rows(rows: Vec<Vec<String>>, style_header: bool) -> Table {
     let col_count = rows.iter().map(|row| row.len()).max().unwrap_or(1);
-    let col_width = DEFAULT_TABLE_WIDTH / col_count as u32;
+    let col_width = DEFAULT_TABLE_WIDTH / (col_count as u32).max(1);
     let col_widths = vec![col_width; col_count];
 
     let mut builder = TableBuilder::new(col_widths);
diff --git a/src/helpers/tables.rs b/src/helpers/tables.rs
index b1f43c8..972f884 100644
--- a/src/helpers/tables.rs
+++ b/src/helpers/tables.rs
@@ -13,7 +13,7 @@ use crate::generator::{TableBuilder, TableCell, TableRow};
 /// let table = simple_table(3, 4); // 3 rows, 4 columns with equal widths
 /// ```
 pub fn simple_table(rows: usize, cols: usize) -> TableBuilder {
-    let col_width = 9144000 / cols as u32; // Divide slide width equally
+    let col_width = 9144000 / (cols as u32).max(1); // Divide slide width equally
     let column_widths = vec![col_width; cols];
     let mut builder = TableBuilder::new(column_widths);
 
@@ -64,7 +64,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
     let widths = if let Some(widths) = column_widths {
         widths.iter().map(|w| (w * 914400.0) as u32).collect()
     } else {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / (cols as u32).max(1);
         vec![col_width; cols]
     };
 
@@ -89,7 +89,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
 /// ```
 pub fn table_with_header(headers: &[&str], data_rows: usize) -> TableBuilder {
     let cols = headers.len();
-    let col_width = 9144000 / cols as u32;
+    let col_width = 9144000 / (cols as u32).max(1);
     let column_widths = vec![col_width; cols];
 
     let mut builder = TableBuilder::new(column_widths);
@@ -124,7 +124,7 @@ pub struct QuickTable {
 impl QuickTable {
     /// Create a new quick table with equal column widths
     pub fn new(cols: usize) -> Self {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / (cols as u32).max(1);
         let column_widths = vec![col_width; cols];
         Self {
             builder: TableBuilder::new(column_widths),
-- 
2.43.0


From e0823dcc9ef9e3d7b53d1f2f3554c7d2b7200587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:38 +0000
Subject: [PATCH 47/50] fix: stacking zero shapes no longer underflows

---
 src/prelude.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index a09ae6e..92986df 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -743,7 +743,7 @@ pub mod layouts {
         spacing: u32,
         y: u32,
     ) -> Vec<(u32, u32)> {
-        let total_width = (shape_width * count as u32) + (spacing * (count - 1) as u32);
+        let total_width = (shape_width * count as u32) + (spacing * count.saturating_sub(1) as u32);
         let start_x = center_x(total_width);
 
         (0..count)
@@ -758,7 +758,7 @@ pub mod layouts {
         spacing: u32,
         x: u32,
     ) -> Vec<(u32, u32)> {
-        let total_height = (shape_height * count as u32) + (spacing * (count - 1) as u32);
+        let total_height = (shape_height * count as u32) + (spacing * count.saturating_sub(1) as u32);
         let start_y = center_y(total_height);
 
         (0..count)
-- 
2.43.0


From e28a1d5ecc450c4040a9f70fb928d4c0e3a44991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:51 +0000
Subject: [PATCH 48/50] fix: declare the p14 prefix that ink content requires

---
 src/generator/slide_content/ink_annotations.rs | 2 +-
 src/generator/slide_xml/content.rs             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/ink_annotations.rs b/src/generator/slide_content/ink_annotations.rs
index 92de659..f7b7b88 100644
--- a/src/generator/slide_content/ink_annotations.rs
+++ b/src/generator/slide_content/ink_annotations.rs
@@ -218,7 +218,7 @@ impl InkAnnotations {
             return String::new();
         }
         format!(
-            r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
+            r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main" Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
             self.rel_id()
         )
     }
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d4aac14..ee0f19d 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -81,7 +81,7 @@ pub fn render_additional_content(
         && content.ink_annotations.is_some() {
             xml.push('\n');
             xml.push_str(&format!(
-                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
+                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main" Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
                 rel_id
             ));
         }
-- 
2.43.0


From 38a5de7616344f9fffc8520cd532d1c5737a3a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:01 +0000
Subject: [PATCH 49/50] fix: the background of a Mermaid subgraph no longer
 shares its shape id with the subgraph title

---
 src/cli/markdown/mermaid/flowchart.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index 832c99d..b06befd 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -248,9 +248,11 @@ pub fn generate_elements(flowchart: &Flowchart) -> DiagramElements {
 
             // Subgraph background shape (no text - just background)
             let sg_shape = Shape::new(ShapeType::RoundedRectangle, sg_x, sg_y, sg_width, sg_height)
+                .with_id(shape_id)
                 .with_fill(ShapeFill::new(get_subgraph_color(sg_idx)))
                 .with_line(ShapeLine::new("757575", 1));
             shapes.push(sg_shape);
+            shape_id += 1;
             element_bounds.push((sg_x, sg_y, sg_width, sg_height));
 
             // Subgraph title at top
-- 
2.43.0


From 37291ded20f8101b5c397c7948966bdb6b8e93ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:01 +0000
Subject: [PATCH 50/50] fix: a second Mermaid diagram on a slide gets shape ids
 of its own

---
 src/cli/markdown/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 007fc6e..f5f0703 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -458,6 +458,13 @@ impl MarkdownParser {
             (0, 0)
         };
 
+        // Diagrams number their shapes from the same start: keep the ids apart
+        // from those of the shapes already on the slide
+        let id_offset = self
+            .current_slide
+            .as_ref()
+            .map_or(0, |slide| slide.shapes.len() as u32);
+
         // Apply offset to shapes
         let shapes: Vec<_> = elements
             .shapes
@@ -465,6 +472,7 @@ impl MarkdownParser {
             .map(|mut shape| {
                 shape.x = (shape.x as i32 + offset_x).max(0) as u32;
                 shape.y = (shape.y as i32 + offset_y).max(0) as u32;
+                shape.id = shape.id.map(|id| id + id_offset);
                 shape
             })
             .collect();
@@ -478,6 +486,8 @@ impl MarkdownParser {
                 conn.start_y = (conn.start_y as i32 + offset_y).max(0) as u32;
                 conn.end_x = (conn.end_x as i32 + offset_x).max(0) as u32;
                 conn.end_y = (conn.end_y as i32 + offset_y).max(0) as u32;
+                conn.start_shape_id = conn.start_shape_id.map(|id| id + id_offset);
+                conn.end_shape_id = conn.end_shape_id.map(|id| id + id_offset);
                 conn
             })
             .collect();
-- 
2.43.0

