From 9a634ad0f91b53d63e5f3542d3a53aee5c9f8860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 01/94] fix: count the newlines skipped between sections, so
 that line numbers do not drift

---
 crates/ass-core/parser/main/helpers.rs | 13 ++++++++++++-
 crates/ass-core/parser/main/section.rs |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/main/helpers.rs b/crates/ass-core/parser/main/helpers.rs
index 64a503a..45c294a 100644
--- a/crates/ass-core/parser/main/helpers.rs
+++ b/crates/ass-core/parser/main/helpers.rs
@@ -32,6 +32,16 @@ impl Parser<'_> {
         }
     }
 
+    /// Advance by `bytes`, keeping the line counter in step with the newlines passed
+    pub(super) fn advance_over(&mut self, bytes: usize) {
+        let end = self.position + bytes;
+        self.line += self.source.as_bytes()[self.position..end]
+            .iter()
+            .filter(|&&b| b == b'\n')
+            .count();
+        self.position = end;
+    }
+
     /// Skip whitespace and comment lines
     pub(super) fn skip_whitespace_and_comments(&mut self) {
         while self.position < self.source.len() {
@@ -39,9 +49,10 @@ impl Parser<'_> {
             let trimmed = remaining.trim_start();
 
             if trimmed.starts_with(';') || trimmed.starts_with("!:") {
+                self.advance_over(remaining.len() - trimmed.len());
                 self.skip_line();
             } else if trimmed != remaining {
-                self.position += remaining.len() - trimmed.len();
+                self.advance_over(remaining.len() - trimmed.len());
             } else {
                 break;
             }
diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 82e0018..26add94 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -31,7 +31,7 @@ impl<'a> Parser<'a> {
         })? + self.position;
 
         let section_name = &self.source[self.position + 1..header_end];
-        self.position = header_end + 1;
+        self.advance_over(header_end + 1 - self.position);
         self.skip_line();
 
         let start_line = self.line;
-- 
2.43.0


From f73420c283fee444f9e9c5c911dc9dafedb6e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 02/94] fix: keep embedded data lines beginning with ';' or
 '!', end an entry at the next key

---
 .../parser/binary_data/binary_parser.rs        | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/binary_data/binary_parser.rs b/crates/ass-core/parser/binary_data/binary_parser.rs
index 03516a9..aa12ce1 100644
--- a/crates/ass-core/parser/binary_data/binary_parser.rs
+++ b/crates/ass-core/parser/binary_data/binary_parser.rs
@@ -98,8 +98,16 @@ impl<'a, T> BinaryDataParser<'a, T> {
                 break;
             }
 
-            // Skip comment lines
-            if trimmed.starts_with(';') || trimmed.starts_with('!') {
+            // The key of the next entry ends this one
+            if self.is_entry_key(trimmed) {
+                break;
+            }
+
+            // Skip comment lines (';' and '!' also begin lines of UU-encoded data,
+            // which holds nothing but the characters '!' to '`')
+            if (trimmed.starts_with(';') || trimmed.starts_with('!'))
+                && !trimmed.bytes().all(|b| (b'!'..=b'`').contains(&b))
+            {
                 self.tracker.skip_line();
                 continue;
             }
@@ -117,6 +125,12 @@ impl<'a, T> BinaryDataParser<'a, T> {
         data_lines
     }
 
+    /// Check whether a line is the key line of an entry
+    fn is_entry_key(&self, line: &str) -> bool {
+        line.strip_prefix(self.entry_key)
+            .is_some_and(|rest| rest.trim_start().starts_with(':'))
+    }
+
     /// Check if at start of next section
     fn at_next_section(&self) -> bool {
         self.tracker.remaining().trim_start().starts_with('[')
-- 
2.43.0


From 843d136482eaa69fbdc1130b95931cfebb40893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 03/94] fix: serialize columns by case-insensitive name and
 keep the parent of a style

---
 .../parser/ast/event/serialization.rs         | 26 ++++----
 .../ass-core/parser/ast/style/conversion.rs   | 64 ++++++++++---------
 2 files changed, 48 insertions(+), 42 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/serialization.rs b/crates/ass-core/parser/ast/event/serialization.rs
index 1945293..50da6e1 100644
--- a/crates/ass-core/parser/ast/event/serialization.rs
+++ b/crates/ass-core/parser/ast/event/serialization.rs
@@ -89,19 +89,19 @@ impl Event<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer,
-                "Start" => self.start,
-                "End" => self.end,
-                "Style" => self.style,
-                "Name" | "Actor" => self.name,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Effect" => self.effect,
-                "Text" => self.text,
+            let value = match field.to_ascii_lowercase().as_str() {
+                "layer" => self.layer,
+                "start" => self.start,
+                "end" => self.end,
+                "style" => self.style,
+                "name" | "actor" => self.name,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "effect" => self.effect,
+                "text" => self.text,
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 282a03b..09482e1 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -36,8 +36,11 @@ impl Style<'_> {
     pub fn to_ass_string(&self) -> alloc::string::String {
         // Use standard V4+ format by default
         // TODO: Support custom format lines
+        let parent = self
+            .parent
+            .map_or_else(alloc::string::String::new, |parent| format!("*{parent},"));
         format!(
-            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            "Style: {parent}{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
             self.name,
             self.fontname,
             self.fontsize,
@@ -94,40 +97,43 @@ impl Style<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Name" => self.name,
-                "Fontname" => self.fontname,
-                "Fontsize" => self.fontsize,
-                "PrimaryColour" => self.primary_colour,
-                "SecondaryColour" => self.secondary_colour,
-                "OutlineColour" | "TertiaryColour" => self.outline_colour,
-                "BackColour" => self.back_colour,
-                "Bold" => self.bold,
-                "Italic" => self.italic,
-                "Underline" => self.underline,
-                "Strikeout" | "StrikeOut" => self.strikeout,
-                "ScaleX" => self.scale_x,
-                "ScaleY" => self.scale_y,
-                "Spacing" => self.spacing,
-                "Angle" => self.angle,
-                "BorderStyle" => self.border_style,
-                "Outline" => self.outline,
-                "Shadow" => self.shadow,
-                "Alignment" => self.alignment,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Encoding" => self.encoding,
-                "RelativeTo" => self.relative_to.unwrap_or("0"),
+            let value = match field.to_ascii_lowercase().as_str() {
+                "name" => self.name,
+                "fontname" => self.fontname,
+                "fontsize" => self.fontsize,
+                "primarycolour" => self.primary_colour,
+                "secondarycolour" => self.secondary_colour,
+                "outlinecolour" | "tertiarycolour" => self.outline_colour,
+                "backcolour" => self.back_colour,
+                "bold" => self.bold,
+                "italic" => self.italic,
+                "underline" => self.underline,
+                "strikeout" => self.strikeout,
+                "scalex" => self.scale_x,
+                "scaley" => self.scale_y,
+                "spacing" => self.spacing,
+                "angle" => self.angle,
+                "borderstyle" => self.border_style,
+                "outline" => self.outline,
+                "shadow" => self.shadow,
+                "alignment" => self.alignment,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "encoding" => self.encoding,
+                "relativeto" => self.relative_to.unwrap_or("0"),
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
         }
 
         let joined = field_values.join(",");
-        format!("Style: {joined}")
+        self.parent.map_or_else(
+            || format!("Style: {joined}"),
+            |parent| format!("Style: *{parent},{joined}"),
+        )
     }
 
     /// Validate all spans in this Style reference valid source
-- 
2.43.0


From bc8819750f23c13edeca90704d967c27ee0767dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 04/94] fix: report timestamps beyond the centisecond range
 instead of overflowing

---
 crates/ass-core/utils/time.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/utils/time.rs b/crates/ass-core/utils/time.rs
index 53f1a4b..753bfd0 100644
--- a/crates/ass-core/utils/time.rs
+++ b/crates/ass-core/utils/time.rs
@@ -83,7 +83,11 @@ pub fn parse_ass_time(time_str: &str) -> Result<u32, CoreError> {
         )));
     }
 
-    Ok(hours * 360_000 + minutes * 6_000 + seconds * 100 + centiseconds)
+    hours
+        .checked_mul(360_000)
+        .and_then(|total| total.checked_add(minutes * 6_000 + seconds * 100))
+        .and_then(|total| total.checked_add(centiseconds))
+        .ok_or_else(|| CoreError::InvalidTime(format!("Time out of range: {time_str}")))
 }
 
 /// Format centiseconds back to ASS time format
-- 
2.43.0


From 560baed7d28db6e1aec69bf023c435dbebb4e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 05/94] fix: decode '`' as zero in UU data

---
 crates/ass-core/utils/uu.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/ass-core/utils/uu.rs b/crates/ass-core/utils/uu.rs
index c7800d3..b7a8739 100644
--- a/crates/ass-core/utils/uu.rs
+++ b/crates/ass-core/utils/uu.rs
@@ -59,8 +59,11 @@ where
             continue;
         }
 
-        // First character encodes the line length
-        let expected_length = (input_bytes[0].wrapping_sub(b' ')) as usize;
+        // First character encodes the line length ('`' is the other spelling of zero)
+        let expected_length = match input_bytes[0] {
+            b'`' => 0,
+            byte => byte.wrapping_sub(b' ') as usize,
+        };
 
         // Only process lines with reasonable UU length values (0-45)
         // This filters out obvious non-UU lines like comments
@@ -83,11 +86,11 @@ where
                 group[i] = byte;
             }
 
-            // Decode 4 characters to 3 bytes
-            let c1 = group[0].wrapping_sub(b' ');
-            let c2 = group[1].wrapping_sub(b' ');
-            let c3 = group[2].wrapping_sub(b' ');
-            let c4 = group[3].wrapping_sub(b' ');
+            // Decode 4 characters to 3 bytes (six bits each; zero is ' ' or '`')
+            let c1 = group[0].wrapping_sub(b' ') & 0x3F;
+            let c2 = group[1].wrapping_sub(b' ') & 0x3F;
+            let c3 = group[2].wrapping_sub(b' ') & 0x3F;
+            let c4 = group[3].wrapping_sub(b' ') & 0x3F;
 
             let decoded_byte1 = (c1 << 2) | (c2 >> 4);
             let decoded_byte2 = ((c2 & 0x0F) << 4) | (c3 >> 2);
-- 
2.43.0


From 77cc59a95c2d90259b1a03bb02118333719a0c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 06/94] fix: override blocks left open and empty tags before a
 multibyte character no longer slice mid-character

---
 crates/ass-core/analysis/events/tags/parser.rs        |  2 +-
 .../ass-core/analysis/events/tags/registry_parser.rs  |  2 +-
 .../ass-core/analysis/events/text_analysis/parser.rs  | 11 ++++++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/analysis/events/tags/parser.rs b/crates/ass-core/analysis/events/tags/parser.rs
index f303298..ee01564 100644
--- a/crates/ass-core/analysis/events/tags/parser.rs
+++ b/crates/ass-core/analysis/events/tags/parser.rs
@@ -138,7 +138,7 @@ pub fn parse_override_block<'a>(
                     });
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = byte_pos + chars.get(char_pos).map_or(0, |c| c.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
diff --git a/crates/ass-core/analysis/events/tags/registry_parser.rs b/crates/ass-core/analysis/events/tags/registry_parser.rs
index 8fae0b5..7b5f574 100644
--- a/crates/ass-core/analysis/events/tags/registry_parser.rs
+++ b/crates/ass-core/analysis/events/tags/registry_parser.rs
@@ -132,7 +132,7 @@ pub fn parse_override_block_with_registry<'a>(
                     }
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = byte_pos + chars.get(char_pos).map_or(0, |c| c.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index ae9e2a8..fd7a7f5 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -37,6 +37,7 @@ impl<'a> TextAnalysis<'a> {
         while let Some(ch) = chars.next() {
             if ch == '{' {
                 let mut brace_count = 1;
+                let mut closed = false;
                 let tag_start = position + ch.len_utf8();
 
                 for inner_ch in chars.by_ref() {
@@ -51,13 +52,17 @@ impl<'a> TextAnalysis<'a> {
                     } else if inner_ch == '}' {
                         brace_count -= 1;
                         if brace_count == 0 {
+                            closed = true;
                             break;
                         }
                     }
                 }
 
-                if position > tag_start {
-                    let tag_content = &text[tag_start..position];
+                // A block that is never closed extends to the end of the text
+                let tag_end = if closed { position } else { text.len() };
+
+                if tag_end > tag_start {
+                    let tag_content = &text[tag_start..tag_end];
 
                     #[cfg(feature = "plugins")]
                     if let Some(registry) = registry {
@@ -89,7 +94,7 @@ impl<'a> TextAnalysis<'a> {
                     drawing_mode = Self::update_drawing_mode(tag_content, drawing_mode);
                 } else {
                     parse_diagnostics.push(TagDiagnostic {
-                        span: &text[tag_start..position.max(tag_start + 1)],
+                        span: &text[tag_start..(tag_start + 1).min(text.len())],
                         offset: tag_start,
                         kind: DiagnosticKind::EmptyOverride,
                     });
-- 
2.43.0


From b87e4de490ea33ba53448a05b9cfef2a2a164089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 07/94] fix: sum animation scores without overflowing

---
 crates/ass-core/analysis/events/scoring/calculators.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/scoring/calculators.rs b/crates/ass-core/analysis/events/scoring/calculators.rs
index 2f36afa..cc745af 100644
--- a/crates/ass-core/analysis/events/scoring/calculators.rs
+++ b/crates/ass-core/analysis/events/scoring/calculators.rs
@@ -39,7 +39,8 @@ use crate::analysis::events::tags::OverrideTag;
 /// ```
 #[must_use]
 pub fn calculate_animation_score(tags: &[OverrideTag<'_>]) -> u8 {
-    tags.iter()
+    let score = tags
+        .iter()
         .map(|tag| match tag.name() {
             "b" | "i" | "u" | "s" | "c" | "1c" | "2c" | "3c" | "4c" | "alpha" | "1a" | "2a"
             | "3a" | "4a" => 1,
@@ -51,8 +52,8 @@ pub fn calculate_animation_score(tags: &[OverrideTag<'_>]) -> u8 {
             "p" => 8,
             _ => 2,
         })
-        .sum::<u8>()
-        .min(10)
+        .fold(0u8, u8::saturating_add);
+    score.min(10)
 }
 
 /// Calculate overall complexity score combining multiple factors
-- 
2.43.0


From ec167ebf9e932d09ef2a9feb441149745c3d998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:52 +0000
Subject: [PATCH 08/94] fix: invalid-color rule no longer slices a multibyte
 character

---
 crates/ass-core/analysis/linting/rules/invalid_color/rule.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index 9666c3d..9ea874b 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -156,8 +156,7 @@ impl InvalidColorRule {
             return Some(("c".to_string(), color_value.to_string()));
         }
 
-        if tag_part.len() >= 3 {
-            let first_char = &tag_part[..1];
+        if let Some(first_char) = tag_part.get(..1) {
             if ["1", "2", "3", "4"].contains(&first_char) && tag_part[1..].starts_with("c&H") {
                 let color_part = tag_part[1..].strip_prefix("c&H")?;
                 let color_end = color_part.find('&')?;
-- 
2.43.0


From 5d92a3742d63491fcd135207b2fcfcdbb3642261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 09/94] fix: resolve styles in parent-before-child order and
 scale inherited values once

---
 .../ass-core/analysis/styles/analyzer/analysis.rs  | 14 +++++++++-----
 .../analysis/styles/analyzer/dependency.rs         | 11 +++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/analysis.rs b/crates/ass-core/analysis/styles/analyzer/analysis.rs
index 4a05ccb..78f61c9 100644
--- a/crates/ass-core/analysis/styles/analyzer/analysis.rs
+++ b/crates/ass-core/analysis/styles/analyzer/analysis.rs
@@ -79,13 +79,17 @@ impl<'a> StyleAnalyzer<'a> {
                 ResolvedStyle::from_style(style)
             };
 
-            if let Ok(mut resolved_style) = resolved {
-                // Apply resolution scaling if needed
-                if let Some((scale_x, scale_y)) = self.resolution_scaling {
-                    resolved_style.apply_resolution_scaling(scale_x, scale_y);
-                }
+            if let Ok(resolved_style) = resolved {
                 self.resolved_styles.insert(style.name, resolved_style);
             }
         }
+
+        // Apply resolution scaling once everything is resolved, so that inherited
+        // values are not scaled again
+        if let Some((scale_x, scale_y)) = self.resolution_scaling {
+            for resolved_style in self.resolved_styles.values_mut() {
+                resolved_style.apply_resolution_scaling(scale_x, scale_y);
+            }
+        }
     }
 }
diff --git a/crates/ass-core/analysis/styles/analyzer/dependency.rs b/crates/ass-core/analysis/styles/analyzer/dependency.rs
index 5294cd3..5d14aca 100644
--- a/crates/ass-core/analysis/styles/analyzer/dependency.rs
+++ b/crates/ass-core/analysis/styles/analyzer/dependency.rs
@@ -34,11 +34,14 @@ impl<'a> StyleAnalyzer<'a> {
         for style in styles {
             if let Some(parent_name) = style.parent {
                 if style_map.contains_key(parent_name) {
-                    dependencies
+                    // A style waits for the parent it inherits from
+                    if dependencies
                         .get_mut(style.name)
                         .unwrap()
-                        .insert(parent_name);
-                    *in_degree.get_mut(parent_name).unwrap() += 1;
+                        .insert(parent_name)
+                    {
+                        *in_degree.get_mut(style.name).unwrap() += 1;
+                    }
 
                     // Track inheritance for analysis
                     if self.config.options.contains(AnalysisOptions::INHERITANCE) {
@@ -100,7 +103,7 @@ impl<'a> StyleAnalyzer<'a> {
         }
 
         // Check if all styles were processed
-        if result.len() == styles.len() {
+        if result.len() == style_map.len() {
             Some(result)
         } else {
             // Not all styles processed - circular dependency exists
-- 
2.43.0


From 48ae22a46dfc904660fa9f72771c87ce83b65918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 10/94] fix: reject NaN font sizes

---
 crates/ass-core/analysis/styles/resolved_style/parsing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/styles/resolved_style/parsing.rs b/crates/ass-core/analysis/styles/resolved_style/parsing.rs
index 7e9956e..5b850de 100644
--- a/crates/ass-core/analysis/styles/resolved_style/parsing.rs
+++ b/crates/ass-core/analysis/styles/resolved_style/parsing.rs
@@ -8,10 +8,10 @@ use crate::{utils::CoreError, Result};
 /// Parse font size with validation
 pub(super) fn parse_font_size(size_str: &str) -> Result<f32> {
     let size = parse_float(size_str)?;
-    if size <= 0.0 || size > 1000.0 {
-        Err(CoreError::parse("Invalid font size"))
-    } else {
+    if size > 0.0 && size <= 1000.0 {
         Ok(size)
+    } else {
+        Err(CoreError::parse("Invalid font size"))
     }
 }
 
-- 
2.43.0


From 1f18dae85d9ca3f8c7271d40c5ded61a40c1b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 11/94] fix: events of zero or negative duration overlap
 nothing

---
 crates/ass-core/analysis/events/overlap/detection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ass-core/analysis/events/overlap/detection.rs b/crates/ass-core/analysis/events/overlap/detection.rs
index 25031f3..969ca19 100644
--- a/crates/ass-core/analysis/events/overlap/detection.rs
+++ b/crates/ass-core/analysis/events/overlap/detection.rs
@@ -31,6 +31,11 @@ where
     for (index, event) in events.enumerate() {
         let (start_time, end_time) = get_times(index, event)?;
 
+        // An event that is never on screen overlaps nothing
+        if end_time <= start_time {
+            continue;
+        }
+
         sweep_events.push(SweepEvent {
             time: start_time,
             event_type: SweepEventType::Start,
-- 
2.43.0


From 1aeb7d01caa00f0095e42181556148fd9bf70560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 12/94] fix: measure short durations in milliseconds, not
 centiseconds

---
 crates/ass-core/analysis/linting/rules/accessibility/rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
index 84c8f64..3e9702e 100644
--- a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
@@ -98,7 +98,7 @@ impl AccessibilityRule {
     fn check_event_duration(&self, issues: &mut Vec<LintIssue>, event: &crate::parser::Event) {
         if let (Ok(start), Ok(end)) = (parse_ass_time(event.start), parse_ass_time(event.end)) {
             if end >= start {
-                let duration_ms = end - start;
+                let duration_ms = u64::from(end - start) * 10;
                 if duration_ms < 500 {
                     let issue = LintIssue::new(
                         self.default_severity(),
-- 
2.43.0


From 21e3ede843f35aff100a84840ee91b7cf3d52c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 13/94] fix: duration sums no longer overflow

---
 crates/ass-core/analysis/events/dialogue_info/accessors.rs | 2 +-
 crates/ass-core/analysis/events/utils/duration.rs          | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/dialogue_info/accessors.rs b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
index e63daca..27c7d43 100644
--- a/crates/ass-core/analysis/events/dialogue_info/accessors.rs
+++ b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
@@ -16,7 +16,7 @@ impl<'a> DialogueInfo<'a> {
     /// Get event duration in milliseconds
     #[must_use]
     pub const fn duration_ms(&self) -> u32 {
-        (self.end_cs - self.start_cs) * 10
+        (self.end_cs - self.start_cs).saturating_mul(10)
     }
 
     /// Get event duration in centiseconds
diff --git a/crates/ass-core/analysis/events/utils/duration.rs b/crates/ass-core/analysis/events/utils/duration.rs
index 2c40258..6d7a967 100644
--- a/crates/ass-core/analysis/events/utils/duration.rs
+++ b/crates/ass-core/analysis/events/utils/duration.rs
@@ -76,6 +76,9 @@ pub fn calculate_average_duration(events: &[DialogueInfo<'_>]) -> Option<u32> {
         return None;
     }
 
-    let total_duration: u32 = events.iter().map(DialogueInfo::duration_cs).sum();
-    Some(total_duration / u32::try_from(events.len()).unwrap_or(u32::MAX))
+    let total_duration: u64 = events
+        .iter()
+        .map(|event| u64::from(event.duration_cs()))
+        .sum();
+    u32::try_from(total_duration / events.len() as u64).ok()
 }
-- 
2.43.0


From 9798fa9c49b52eba8e42b8a015fc2bb412b32b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 14/94] fix: a defined style is not missing because one of its
 values cannot be resolved

---
 .../ass-core/analysis/linting/rules/missing_style/rule.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/missing_style/rule.rs b/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
index 137fdbb..9247210 100644
--- a/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
@@ -74,8 +74,14 @@ impl LintRule for MissingStyleRule {
         let mut issues = Vec::new();
 
         let style_names: Vec<&str> = analysis
-            .resolved_styles()
+            .script()
+            .sections()
             .iter()
+            .filter_map(|section| match section {
+                Section::Styles(styles) => Some(styles),
+                _ => None,
+            })
+            .flatten()
             .map(|style| style.name)
             .collect();
 
-- 
2.43.0


From 4265e6f1d54c13d730620d3a801e4e07eeb9c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 15/94] fix: a colour has hex digits only, no sign

---
 crates/ass-core/utils/color.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/ass-core/utils/color.rs b/crates/ass-core/utils/color.rs
index 54e0293..1d9f57d 100644
--- a/crates/ass-core/utils/color.rs
+++ b/crates/ass-core/utils/color.rs
@@ -56,6 +56,12 @@ pub fn parse_bgr_color(color_str: &str) -> Result<[u8; 4], CoreError> {
             )));
         };
 
+    if !hex_part.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(CoreError::InvalidColor(format!(
+            "Invalid hex value: {hex_part}"
+        )));
+    }
+
     let hex_value = u32::from_str_radix(hex_part, 16)
         .map_err(|_| CoreError::InvalidColor(format!("Invalid hex value: {hex_part}")))?;
 
-- 
2.43.0


From 8ecfabaf5ae1ed0ea7a4241b18f8a7a1cefd95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 16/94] fix: tokenize a carriage return at the end of the input

---
 crates/ass-core/tokenizer/next_token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/next_token.rs b/crates/ass-core/tokenizer/next_token.rs
index 34c8ee3..cb8180f 100644
--- a/crates/ass-core/tokenizer/next_token.rs
+++ b/crates/ass-core/tokenizer/next_token.rs
@@ -62,7 +62,7 @@ impl<'a> AssTokenizer<'a> {
             ('\n' | '\r', _) => {
                 self.context = self.context.reset_to_document();
                 self.scanner.navigator_mut().advance_char()?;
-                if current_char == '\r' && self.scanner.navigator_mut().peek_char()? == '\n' {
+                if current_char == '\r' && self.scanner.navigator_mut().peek_char() == Ok('\n') {
                     self.scanner.navigator_mut().advance_char()?;
                 }
                 Ok(TokenType::Newline)
-- 
2.43.0


From e605ee3f151c094e0004bfbad3b639738eda1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 17/94] fix: SIMD text scanning keeps columns, line breaks and
 delimiters of the scalar scan

---
 crates/ass-core/tokenizer/scanner/navigator.rs    | 11 +++++++++++
 crates/ass-core/tokenizer/scanner/text_scanner.rs | 15 +++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/tokenizer/scanner/navigator.rs b/crates/ass-core/tokenizer/scanner/navigator.rs
index 1daa4e0..566cc36 100644
--- a/crates/ass-core/tokenizer/scanner/navigator.rs
+++ b/crates/ass-core/tokenizer/scanner/navigator.rs
@@ -130,6 +130,17 @@ impl<'a> CharNavigator<'a> {
         Ok(ch)
     }
 
+    /// Move ahead to `end`, over text that contains no line break
+    #[cfg(feature = "simd")]
+    pub(super) fn skip_within_line(&mut self, end: usize) {
+        let skipped = &self.source[self.position..end];
+        self.column += skipped.chars().count();
+        self.last_char = skipped.chars().next_back().or(self.last_char);
+        self.position = end;
+        self.chars = self.source[end..].chars();
+        self.peek_char = None;
+    }
+
     /// Skip whitespace (excluding newlines)
     pub fn skip_whitespace(&mut self) {
         while self.position < self.source.len() {
diff --git a/crates/ass-core/tokenizer/scanner/text_scanner.rs b/crates/ass-core/tokenizer/scanner/text_scanner.rs
index 5ebd063..25023da 100644
--- a/crates/ass-core/tokenizer/scanner/text_scanner.rs
+++ b/crates/ass-core/tokenizer/scanner/text_scanner.rs
@@ -26,13 +26,16 @@ impl TokenScanner<'_> {
             let use_simd = !matches!(context, TokenContext::FieldValue);
 
             if use_simd {
-                if let Some(delimiter_pos) = self.scan_delimiters_simd(start) {
-                    self.navigator.position = delimiter_pos;
-                } else {
-                    self.navigator.position = self.source.len();
+                let mut end = self
+                    .scan_delimiters_simd(start)
+                    .unwrap_or(self.source.len());
+                // A semicolon ends text in document context, as in the scalar scan
+                if context == TokenContext::Document {
+                    if let Some(offset) = self.source[start..end].find(';') {
+                        end = start + offset;
+                    }
                 }
-                self.navigator.chars = self.source[self.navigator.position..].chars();
-                self.navigator.peek_char = None;
+                self.navigator.skip_within_line(end);
             }
         }
 
-- 
2.43.0


From b9c66b241b3acf44cbe4936230c35cd81f7ba82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 18/94] fix: an updated line keeps its place, so that it can be
 found by offset again

---
 crates/ass-core/parser/script/update.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index a0d21db..5027a40 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -59,7 +59,10 @@ impl<'a> Script<'a> {
                     .position(|s| s.span.start <= offset && offset < s.span.end)
                     .map_or(Err(ParseError::IndexOutOfBounds), |style_index| {
                         let old_style = styles[style_index].clone();
+                        // The new line stands where the old one stood
                         styles[style_index] = *new_style;
+                        styles[style_index].span.start = old_style.span.start;
+                        styles[style_index].span.end = old_style.span.end;
                         Ok(LineContent::Style(Box::new(old_style)))
                     })
             }
@@ -70,7 +73,10 @@ impl<'a> Script<'a> {
                     .position(|e| e.span.start <= offset && offset < e.span.end)
                     .map_or(Err(ParseError::IndexOutOfBounds), |event_index| {
                         let old_event = events[event_index].clone();
+                        // The new line stands where the old one stood
                         events[event_index] = *new_event;
+                        events[event_index].span.start = old_event.span.start;
+                        events[event_index].span.end = old_event.span.end;
                         Ok(LineContent::Event(Box::new(old_event)))
                     })
             }
-- 
2.43.0


From 319c51c430399723c031f07a268413c649539472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 19/94] fix: record the change of a field whose old value was
 empty

---
 crates/ass-core/parser/script/update.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index 5027a40..4ce3e12 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -51,6 +51,7 @@ impl<'a> Script<'a> {
         let (_, new_content) = self.parse_line_auto(new_line, line_number)?;
 
         // Update the appropriate section
+        let mut field_added = false;
         let result = match (&mut self.sections[section_index], new_content.clone()) {
             (Section::Styles(styles), LineContent::Style(new_style)) => {
                 // Find the style at this offset
@@ -89,6 +90,7 @@ impl<'a> Script<'a> {
                 } else {
                     // Add new field if not found
                     info.fields.push((key, value));
+                    field_added = true;
                     // Record as addition
                     self.change_tracker.record(Change::Added {
                         offset,
@@ -105,7 +107,7 @@ impl<'a> Script<'a> {
 
         // Record change if successful
         if let Ok(old_content) = &result {
-            if !matches!(old_content, LineContent::Field(_, "")) {
+            if !field_added {
                 // This was a modification, not an addition
                 self.change_tracker.record(Change::Modified {
                     offset,
-- 
2.43.0


From 120cfb10eb8566ce4e932f3d9518e2d8ae593a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 20/94] fix: elements added after parsing do not empty the
 extent of their section

---
 .../parser/ast/section/section_enum.rs        | 57 ++++++-------------
 1 file changed, 17 insertions(+), 40 deletions(-)

diff --git a/crates/ass-core/parser/ast/section/section_enum.rs b/crates/ass-core/parser/ast/section/section_enum.rs
index 3567294..34e2373 100644
--- a/crates/ass-core/parser/ast/section/section_enum.rs
+++ b/crates/ass-core/parser/ast/section/section_enum.rs
@@ -64,6 +64,19 @@ pub enum Section<'a> {
     Graphics(Vec<Graphic<'a>>),
 }
 
+/// Merge the first and last span of a section's elements
+///
+/// Elements added after parsing have an empty span and no place in the source;
+/// they are left out unless there are no others.
+fn merge_spans(spans: impl Iterator<Item = Span> + Clone) -> Option<Span> {
+    let placed = spans.clone().filter(|span| span.start < span.end);
+    let (first, last) = match (placed.clone().next(), placed.last()) {
+        (Some(first), Some(last)) => (first, last),
+        _ => (spans.clone().next()?, spans.last()?),
+    };
+    Some(Span::new(first.start, last.end, first.line, first.column))
+}
+
 impl Section<'_> {
     /// Get the span covering this entire section
     ///
@@ -73,46 +86,10 @@ impl Section<'_> {
     pub fn span(&self) -> Option<Span> {
         match self {
             Section::ScriptInfo(info) => Some(info.span),
-            Section::Styles(styles) => {
-                if styles.is_empty() {
-                    None
-                } else {
-                    // Merge first and last style spans
-                    let first = &styles[0].span;
-                    let last = &styles[styles.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Events(events) => {
-                if events.is_empty() {
-                    None
-                } else {
-                    // Merge first and last event spans
-                    let first = &events[0].span;
-                    let last = &events[events.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Fonts(fonts) => {
-                if fonts.is_empty() {
-                    None
-                } else {
-                    // Merge first and last font spans
-                    let first = &fonts[0].span;
-                    let last = &fonts[fonts.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Graphics(graphics) => {
-                if graphics.is_empty() {
-                    None
-                } else {
-                    // Merge first and last graphic spans
-                    let first = &graphics[0].span;
-                    let last = &graphics[graphics.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
+            Section::Styles(styles) => merge_spans(styles.iter().map(|s| s.span)),
+            Section::Events(events) => merge_spans(events.iter().map(|e| e.span)),
+            Section::Fonts(fonts) => merge_spans(fonts.iter().map(|f| f.span)),
+            Section::Graphics(graphics) => merge_spans(graphics.iter().map(|g| g.span)),
         }
     }
 
-- 
2.43.0


From a8eb5b3609b0c7c2dcd1788edff8926880f66dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 21/94] fix: incremental parsing gives the script of the new
 text, bad ranges are an error

---
 crates/ass-core/parser/script/incremental.rs | 127 ++-----------------
 crates/ass-core/parser/script/partial.rs     | 109 ++--------------
 2 files changed, 24 insertions(+), 212 deletions(-)

diff --git a/crates/ass-core/parser/script/incremental.rs b/crates/ass-core/parser/script/incremental.rs
index 47ab296..cfdefb6 100644
--- a/crates/ass-core/parser/script/incremental.rs
+++ b/crates/ass-core/parser/script/incremental.rs
@@ -1,13 +1,11 @@
 //! Incremental reparse support for editor-driven text changes.
 //!
 //! Implements [`Script::affected_sections`], which maps a text change to the
-//! sections it touches, and [`Script::parse_incremental`], which reparses only
-//! those sections while shifting the spans of unchanged sections.
+//! sections it touches, and [`Script::parse_incremental`].
 
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 use crate::parser::ast::{Section, SectionType};
-use crate::parser::main::Parser;
 use crate::Result;
 
 use super::Script;
@@ -51,10 +49,9 @@ impl<'a> Script<'a> {
             .collect()
     }
 
-    /// Parse only changed portions and create new Script
+    /// Create the Script for a changed text
     ///
-    /// This method performs incremental parsing by identifying affected sections
-    /// and reparsing only those sections while preserving others.
+    /// The result equals that of parsing the new text from scratch.
     ///
     /// # Arguments
     ///
@@ -67,119 +64,17 @@ impl<'a> Script<'a> {
     ///
     /// # Errors
     ///
-    /// Returns parse errors if affected sections cannot be reparsed
+    /// Returns an error if the new text cannot be parsed
     pub fn parse_incremental(
         &self,
         new_source: &'a str,
         change: &crate::parser::incremental::TextChange,
     ) -> Result<Self> {
-        use crate::parser::sections::SectionFormats;
-
-        // Step 1: Identify affected sections
-        let affected_sections = self.affected_sections(change);
-
-        if affected_sections.is_empty() {
-            // Change was in whitespace/comments only
-            return Ok(Script::from_parts(
-                new_source,
-                self.version(),
-                self.sections.clone(),
-                vec![], // Clear issues, will be recalculated
-                self.styles_format.clone(),
-                self.events_format.clone(),
-            ));
-        }
-
-        // Step 2: Build section formats from existing script
-        let formats = SectionFormats {
-            styles_format: self.styles_format().map(<[&str]>::to_vec),
-            events_format: self.events_format().map(<[&str]>::to_vec),
-        };
-
-        // Step 3: Prepare new sections
-        let mut new_sections = Vec::with_capacity(self.sections.len());
-
-        // We need to find where each section actually starts in the document
-        // including its header. The current spans only track content.
-        let section_headers = [
-            ("[Script Info]", SectionType::ScriptInfo),
-            ("[V4+ Styles]", SectionType::Styles),
-            ("[Events]", SectionType::Events),
-            ("[Fonts]", SectionType::Fonts),
-            ("[Graphics]", SectionType::Graphics),
-        ];
-
-        // Step 4: Process each section
-        for (idx, section) in self.sections.iter().enumerate() {
-            let section_type = section.section_type();
-
-            if affected_sections.contains(&section_type) {
-                // Find the section header in the new source
-                let header_str = section_headers
-                    .iter()
-                    .find(|(_, t)| *t == section_type)
-                    .map_or("[Unknown]", |(h, _)| *h);
-
-                // Find where this section starts in the new source
-                if let Some(header_pos) = new_source.find(header_str) {
-                    // Find the end of this section (start of next section or end of file)
-                    let section_end = if idx + 1 < self.sections.len() {
-                        // Find the next section's header
-                        let next_section_type = self.sections[idx + 1].section_type();
-                        let next_header = section_headers
-                            .iter()
-                            .find(|(_, t)| *t == next_section_type)
-                            .map_or("[Unknown]", |(h, _)| *h);
-
-                        new_source[header_pos + header_str.len()..]
-                            .find(next_header)
-                            .map_or(new_source.len(), |pos| header_pos + header_str.len() + pos)
-                    } else {
-                        new_source.len()
-                    };
-
-                    // Extract the full section text including header
-                    let section_text = &new_source[header_pos..section_end];
-
-                    // Parse this section using a fresh parser
-                    let parser = Parser::new(section_text);
-                    let parsed_script = parser.parse();
-
-                    // The parser returns a Script, extract sections from it
-                    // We only want the one matching our type
-                    if let Some(parsed_section) = parsed_script
-                        .sections
-                        .into_iter()
-                        .find(|s| s.section_type() == section_type)
-                    {
-                        new_sections.push(parsed_section);
-                    }
-                }
-            } else {
-                // Section unchanged, but might need span adjustment if change was before it
-                let section_span = section.span();
-                if let Some(span) = section_span {
-                    if change.range.end <= span.start {
-                        // Change was before this section, adjust its spans
-                        new_sections.push(Self::adjust_section_spans(section, change));
-                    } else {
-                        // Change was after this section, keep as-is
-                        new_sections.push(section.clone());
-                    }
-                } else {
-                    new_sections.push(section.clone());
-                }
-            }
-        }
-
-        // Step 5: Create new Script with updated sections
-        Ok(Script::from_parts(
-            new_source,
-            self.version(),
-            new_sections,
-            vec![], // Issues will be recalculated
-            formats.styles_format.clone(),
-            formats.events_format.clone(),
-        ))
+        // Elements are slices of the text they were parsed from, and their positions
+        // and column formats depend on all the text before them. Unchanged sections
+        // therefore cannot be carried over from the old text; the ones a change
+        // touches are found by `affected_sections`.
+        let _ = change;
+        Script::parse(new_source)
     }
 }
diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 893dc20..1cf2d56 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -1,16 +1,12 @@
-//! Range-based partial reparse and span adjustment helpers.
+//! Range-based partial reparse.
 //!
-//! Hosts the streaming [`Script::parse_partial`] entry point used by editors for
-//! sub-2ms edits, together with the `adjust_section_spans` helper that shifts
-//! unchanged section spans after a text change.
+//! Hosts the streaming [`Script::parse_partial`] entry point used by editors.
 
-use alloc::vec::Vec;
 #[cfg(feature = "stream")]
-use alloc::{format, string::ToString};
+use alloc::{format, string::ToString, vec::Vec};
 #[cfg(feature = "stream")]
 use core::ops::Range;
 
-use crate::parser::ast::Section;
 #[cfg(feature = "stream")]
 use crate::parser::streaming;
 #[cfg(feature = "stream")]
@@ -20,12 +16,10 @@ use crate::Result;
 use super::delta::{calculate_delta, ScriptDeltaOwned};
 use super::Script;
 
-impl<'a> Script<'a> {
+#[cfg(feature = "stream")]
+impl Script<'_> {
     /// Parse incrementally with range-based updates for editors
     ///
-    /// Updates only the specified range, keeping other sections unchanged.
-    /// Enables <2ms edit responsiveness for interactive editing.
-    ///
     /// # Arguments
     ///
     /// * `range` - Byte range in source to re-parse
@@ -37,10 +31,15 @@ impl<'a> Script<'a> {
     ///
     /// # Errors
     ///
-    /// Returns an error if the new text contains malformed section headers or
-    /// other unrecoverable syntax errors in the specified range.
-    #[cfg(feature = "stream")]
+    /// Returns an error if the range is not within the source or splits a character.
     pub fn parse_partial(&self, range: Range<usize>, new_text: &str) -> Result<ScriptDeltaOwned> {
+        if range.start > range.end || self.source.get(range.clone()).is_none() {
+            return Err(crate::utils::errors::CoreError::parse(format!(
+                "Range {}..{} is not within the source",
+                range.start, range.end
+            )));
+        }
+
         // Build the modified source
         let modified_source =
             streaming::build_modified_source(self.source, range.clone(), new_text);
@@ -84,86 +83,4 @@ impl<'a> Script<'a> {
 
         Ok(owned_delta)
     }
-
-    /// Adjust section spans for unchanged sections after a text change
-    pub(super) fn adjust_section_spans(
-        section: &Section<'a>,
-        change: &crate::parser::incremental::TextChange,
-    ) -> Section<'a> {
-        use crate::parser::ast::Span;
-
-        // Calculate the offset caused by the change
-        let new_len = change.new_text.len();
-        let old_len = change.range.end - change.range.start;
-
-        // Helper to adjust a span using safe arithmetic
-        let adjust_span = |span: &Span| -> Span {
-            let new_start = if new_len >= old_len {
-                span.start + (new_len - old_len)
-            } else {
-                span.start.saturating_sub(old_len - new_len)
-            };
-
-            let new_end = if new_len >= old_len {
-                span.end + (new_len - old_len)
-            } else {
-                span.end.saturating_sub(old_len - new_len)
-            };
-
-            Span::new(new_start, new_end, span.line, span.column)
-        };
-
-        // Adjust all spans in the section
-        match section {
-            Section::ScriptInfo(info) => {
-                let mut new_info = info.clone();
-                new_info.span = adjust_span(&info.span);
-                Section::ScriptInfo(new_info)
-            }
-            Section::Styles(styles) => {
-                let new_styles: Vec<_> = styles
-                    .iter()
-                    .map(|style| {
-                        let mut new_style = style.clone();
-                        new_style.span = adjust_span(&style.span);
-                        new_style
-                    })
-                    .collect();
-                Section::Styles(new_styles)
-            }
-            Section::Events(events) => {
-                let new_events: Vec<_> = events
-                    .iter()
-                    .map(|event| {
-                        let mut new_event = event.clone();
-                        new_event.span = adjust_span(&event.span);
-                        new_event
-                    })
-                    .collect();
-                Section::Events(new_events)
-            }
-            Section::Fonts(fonts) => {
-                let new_fonts: Vec<_> = fonts
-                    .iter()
-                    .map(|font| {
-                        let mut new_font = font.clone();
-                        new_font.span = adjust_span(&font.span);
-                        new_font
-                    })
-                    .collect();
-                Section::Fonts(new_fonts)
-            }
-            Section::Graphics(graphics) => {
-                let new_graphics: Vec<_> = graphics
-                    .iter()
-                    .map(|graphic| {
-                        let mut new_graphic = graphic.clone();
-                        new_graphic.span = adjust_span(&graphic.span);
-                        new_graphic
-                    })
-                    .collect();
-                Section::Graphics(new_graphics)
-            }
-        }
-    }
 }
-- 
2.43.0


From 50013c7efcaa4e18ff60f66f64179413ece3a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 22/94] fix: section bounds are found for hints inside a
 character or past the end

---
 .../ass-core/parser/incremental/section_bounds.rs   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/incremental/section_bounds.rs b/crates/ass-core/parser/incremental/section_bounds.rs
index cf1b8f9..bc5d8da 100644
--- a/crates/ass-core/parser/incremental/section_bounds.rs
+++ b/crates/ass-core/parser/incremental/section_bounds.rs
@@ -3,6 +3,15 @@
 use crate::parser::errors::ParseError;
 use crate::parser::SectionType;
 
+/// Largest character boundary that is not after `index`
+fn floor_char_boundary(source: &str, index: usize) -> usize {
+    let mut boundary = index.min(source.len());
+    while !source.is_char_boundary(boundary) {
+        boundary -= 1;
+    }
+    boundary
+}
+
 /// Find the start of a section header before the given position
 ///
 /// # Errors
@@ -24,7 +33,8 @@ pub fn find_section_header_start(
 
     // Search backwards from start_hint for the header
     let search_start = start_hint.saturating_sub(header.len() + 100); // Look back up to 100 chars
-    let search_text = &source[search_start..start_hint.min(source.len())];
+    let search_start = floor_char_boundary(source, search_start);
+    let search_text = &source[search_start..floor_char_boundary(source, start_hint)];
 
     search_text
         .rfind(header)
@@ -55,6 +65,7 @@ pub fn find_section_end(
         "[Graphics]",
     ];
 
+    let end_hint = floor_char_boundary(source, end_hint);
     let search_text = &source[end_hint..];
 
     // Find the nearest section header
-- 
2.43.0


From e0916f3316ff29c432bb0095847826e8a526a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:42 +0000
Subject: [PATCH 23/94] fix: a UTF-32LE byte order mark is not reported as
 UTF-16

---
 crates/ass-core/utils/errors/encoding/validation.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/utils/errors/encoding/validation.rs b/crates/ass-core/utils/errors/encoding/validation.rs
index d1176a5..5dc42e3 100644
--- a/crates/ass-core/utils/errors/encoding/validation.rs
+++ b/crates/ass-core/utils/errors/encoding/validation.rs
@@ -107,12 +107,7 @@ pub fn validate_bom_handling(bytes: &[u8]) -> Result<(), CoreError> {
         return Ok(());
     }
 
-    if bytes.len() >= 2 && (bytes[0..2] == [0xFF, 0xFE] || bytes[0..2] == [0xFE, 0xFF]) {
-        return Err(validation_error(
-            "UTF-16 BOM detected - ASS files should be UTF-8",
-        ));
-    }
-
+    // The UTF-32LE mark begins with the UTF-16LE one
     if bytes.len() >= 4
         && (bytes[0..4] == [0xFF, 0xFE, 0x00, 0x00] || bytes[0..4] == [0x00, 0x00, 0xFE, 0xFF])
     {
@@ -121,6 +116,12 @@ pub fn validate_bom_handling(bytes: &[u8]) -> Result<(), CoreError> {
         ));
     }
 
+    if bytes.len() >= 2 && (bytes[0..2] == [0xFF, 0xFE] || bytes[0..2] == [0xFE, 0xFF]) {
+        return Err(validation_error(
+            "UTF-16 BOM detected - ASS files should be UTF-8",
+        ));
+    }
+
     // Check for partial BOM sequences that could indicate encoding issues
     if bytes.len() >= 2 && bytes[0..2] == [0xEF, 0xBB] {
         return Err(validation_error(
-- 
2.43.0


From 3c8a4a6f5c70f0780e1f1469a1e4ae5bfb032460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 24/94] fix: a chunk fed to the streaming parser may end inside
 a character

---
 crates/ass-core/parser/streaming/parser.rs | 29 +++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index 21f6ded..b05fe6e 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -21,6 +21,8 @@ pub struct StreamingParser {
     processor: LineProcessor,
     /// Buffer for incomplete lines
     pub(super) buffer: String,
+    /// First bytes of a character whose other bytes come with the next chunk
+    partial_char: Vec<u8>,
     /// Parsed sections in document order
     pub(super) sections: Vec<String>,
 
@@ -36,6 +38,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            partial_char: Vec::new(),
             sections: Vec::new(),
 
             #[cfg(feature = "benches")]
@@ -49,6 +52,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            partial_char: Vec::new(),
             sections: Vec::with_capacity(capacity),
 
             #[cfg(feature = "benches")]
@@ -58,6 +62,8 @@ impl StreamingParser {
 
     /// Feed chunk of data to parser
     ///
+    /// A chunk may end inside a multi-byte character.
+    ///
     /// # Errors
     ///
     /// Returns an error if the chunk contains invalid UTF-8 or parsing fails.
@@ -66,8 +72,19 @@ impl StreamingParser {
             return Ok(Vec::new());
         }
 
-        let chunk_str = core::str::from_utf8(chunk)
-            .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
+        let mut bytes = core::mem::take(&mut self.partial_char);
+        bytes.extend_from_slice(chunk);
+
+        let chunk_str = match core::str::from_utf8(&bytes) {
+            Ok(text) => text,
+            Err(e) if e.error_len().is_none() => {
+                let (complete, rest) = bytes.split_at(e.valid_up_to());
+                self.partial_char = rest.to_vec();
+                core::str::from_utf8(complete)
+                    .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?
+            }
+            Err(e) => return Err(CoreError::parse(format!("Invalid UTF-8: {e}"))),
+        };
 
         self.buffer.push_str(chunk_str);
 
@@ -109,8 +126,13 @@ impl StreamingParser {
     ///
     /// # Errors
     ///
-    /// Returns an error if the final line processing fails.
+    /// Returns an error if the input ends inside a character or the final line
+    /// processing fails.
     pub fn finish(mut self) -> Result<StreamingResult> {
+        if !self.partial_char.is_empty() {
+            return Err(CoreError::parse("Invalid UTF-8: incomplete character"));
+        }
+
         if !self.buffer.trim().is_empty() {
             let _deltas = self.processor.process_line(&self.buffer.clone())?;
         }
@@ -126,6 +148,7 @@ impl StreamingParser {
     pub fn reset(&mut self) {
         self.processor.reset();
         self.buffer.clear();
+        self.partial_char.clear();
         self.sections.clear();
 
         #[cfg(feature = "benches")]
-- 
2.43.0


From c7f89a1525fb8fd74caa982b4b7f95ae0422daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 25/94] fix: UTF-8 batch validation reports the position in the
 whole input

---
 crates/ass-core/tokenizer/simd/utf8.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/simd/utf8.rs b/crates/ass-core/tokenizer/simd/utf8.rs
index fe5da29..4c11092 100644
--- a/crates/ass-core/tokenizer/simd/utf8.rs
+++ b/crates/ass-core/tokenizer/simd/utf8.rs
@@ -44,7 +44,12 @@ fn validate_utf8_simd_impl(bytes: &[u8]) -> Result<(), CoreError> {
         }
     }
 
-    validate_utf8_scalar(remainder)
+    if remainder.is_ascii() {
+        Ok(())
+    } else {
+        // The whole input, so that the error tells the position in it
+        validate_utf8_scalar(bytes)
+    }
 }
 
 /// Scalar UTF-8 validation implementation
-- 
2.43.0


From 56ff7ca96b1ee15d5c173c140731124823d26d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:24 +0000
Subject: [PATCH 26/94] fix: the pos and move handlers accept the parentheses
 around their arguments

---
 crates/ass-core/plugin/tags/position/move_handler.rs   |  4 ++--
 .../ass-core/plugin/tags/position/position_handler.rs  |  4 ++--
 crates/ass-core/plugin/tags/position/validation.rs     | 10 ++++++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/plugin/tags/position/move_handler.rs b/crates/ass-core/plugin/tags/position/move_handler.rs
index d5a762d..940dcfc 100644
--- a/crates/ass-core/plugin/tags/position/move_handler.rs
+++ b/crates/ass-core/plugin/tags/position/move_handler.rs
@@ -3,7 +3,7 @@
 //! Implements [`TagHandler`] for the `\move` command, which animates text from
 //! `(x1,y1)` to `(x2,y2)` optionally between times `t1` and `t2`.
 
-use super::validation::is_numeric;
+use super::validation::{bare_args, is_numeric};
 use crate::plugin::{TagHandler, TagResult};
 use alloc::string::String;
 
@@ -29,7 +29,7 @@ impl TagHandler for MoveTagHandler {
     }
 
     fn validate(&self, args: &str) -> bool {
-        let args = args.trim();
+        let args = bare_args(args);
         if args.is_empty() {
             return false;
         }
diff --git a/crates/ass-core/plugin/tags/position/position_handler.rs b/crates/ass-core/plugin/tags/position/position_handler.rs
index 9e41ee1..eb57ccd 100644
--- a/crates/ass-core/plugin/tags/position/position_handler.rs
+++ b/crates/ass-core/plugin/tags/position/position_handler.rs
@@ -3,7 +3,7 @@
 //! Implements [`TagHandler`] for the `\pos` command, which positions text at
 //! absolute `(x,y)` coordinates. Arguments must be two comma-separated numbers.
 
-use super::validation::is_numeric;
+use super::validation::{bare_args, is_numeric};
 use crate::plugin::{TagHandler, TagResult};
 use alloc::string::String;
 
@@ -27,7 +27,7 @@ impl TagHandler for PositionTagHandler {
     }
 
     fn validate(&self, args: &str) -> bool {
-        let args = args.trim();
+        let args = bare_args(args);
         if args.is_empty() || !args.contains(',') {
             return false;
         }
diff --git a/crates/ass-core/plugin/tags/position/validation.rs b/crates/ass-core/plugin/tags/position/validation.rs
index 7cef532..5c08eb5 100644
--- a/crates/ass-core/plugin/tags/position/validation.rs
+++ b/crates/ass-core/plugin/tags/position/validation.rs
@@ -67,3 +67,13 @@ mod tests {
         assert!(!is_numeric("12 3"));
     }
 }
+
+/// Trim the arguments of a tag and the parentheses an override block has
+/// around them, as in `\pos(100,200)`
+#[inline]
+pub(super) fn bare_args(args: &str) -> &str {
+    let args = args.trim();
+    args.strip_prefix('(')
+        .and_then(|inner| inner.strip_suffix(')'))
+        .map_or(args, str::trim)
+}
-- 
2.43.0


From 4aed730bed2889b3c908e4f9fdc1cce3f96433b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:35 +0000
Subject: [PATCH 27/94] fix: the streaming parser knows V4++ style sections

---
 crates/ass-core/parser/streaming/state/section_kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/streaming/state/section_kind.rs b/crates/ass-core/parser/streaming/state/section_kind.rs
index 6aa1d3e..76b6c74 100644
--- a/crates/ass-core/parser/streaming/state/section_kind.rs
+++ b/crates/ass-core/parser/streaming/state/section_kind.rs
@@ -41,7 +41,7 @@ impl SectionKind {
     pub fn from_header(header: &str) -> Self {
         match header.trim() {
             "Script Info" => Self::ScriptInfo,
-            "V4+ Styles" | "V4 Styles" => Self::Styles,
+            "V4+ Styles" | "V4 Styles" | "V4++ Styles" => Self::Styles,
             "Events" => Self::Events,
             "Fonts" => Self::Fonts,
             "Graphics" => Self::Graphics,
-- 
2.43.0


From 55e28c8fbf9e2d1eb8c93ebb626f341164e48164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 28/94] fix: a section no processor takes is reported as it is
 without a registry

---
 crates/ass-core/parser/main/registry.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/main/registry.rs b/crates/ass-core/parser/main/registry.rs
index 13afb2e..01460dd 100644
--- a/crates/ass-core/parser/main/registry.rs
+++ b/crates/ass-core/parser/main/registry.rs
@@ -27,6 +27,7 @@ impl<'a> Parser<'a> {
         start_line: usize,
     ) -> Option<Result<Section<'a>>> {
         let registry = self.registry?;
+        let (body_position, body_line) = (self.position, self.line);
 
         // Collect section lines
         let mut lines = Vec::new();
@@ -71,7 +72,12 @@ impl<'a> Parser<'a> {
                 ));
                 None
             }
-            Some(SectionResult::Ignored) | None => None,
+            Some(SectionResult::Ignored) | None => {
+                // Nobody took the section: leave it as if it had not been read
+                self.position = body_position;
+                self.line = body_line;
+                None
+            }
         }
     }
 }
-- 
2.43.0


From 51ffbadcc8a10ea6d3efb54ce94bfd521ec3fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 29/94] fix: order styles in time proportional to their number,
 without recursion

A long inheritance chain overflowed the stack in the cycle search, and the
ordering rescanned every style for each style it placed.
---
 .../analysis/styles/analyzer/dependency.rs    | 73 ++++---------------
 1 file changed, 16 insertions(+), 57 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/dependency.rs b/crates/ass-core/analysis/styles/analyzer/dependency.rs
index 5d14aca..195ee77 100644
--- a/crates/ass-core/analysis/styles/analyzer/dependency.rs
+++ b/crates/ass-core/analysis/styles/analyzer/dependency.rs
@@ -1,7 +1,7 @@
 //! Style dependency ordering and circular-inheritance detection.
 //!
 //! Builds a topological ordering of styles based on their parent references and
-//! detects circular inheritance via depth-first search before resolution.
+//! detects circular inheritance (styles that never become ready) before resolution.
 
 use super::{AnalysisOptions, StyleAnalyzer};
 use crate::{
@@ -65,12 +65,12 @@ impl<'a> StyleAnalyzer<'a> {
             }
         }
 
-        // Check for circular dependencies using DFS
-        if Self::has_circular_dependency(&dependencies) {
-            self.conflicts.push(StyleConflict::circular_inheritance(
-                dependencies.keys().copied().collect(),
-            ));
-            return None;
+        // Reverse edges (parent -> children), children in name order
+        let mut children: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
+        for (child, parents) in &dependencies {
+            for parent in parents {
+                children.entry(parent).or_default().push(child);
+            }
         }
 
         // Perform topological sort
@@ -90,13 +90,11 @@ impl<'a> StyleAnalyzer<'a> {
             }
 
             // Update in-degrees
-            for (child, parents) in &dependencies {
-                if parents.contains(current) {
-                    if let Some(degree) = in_degree.get_mut(child) {
-                        *degree = degree.saturating_sub(1);
-                        if *degree == 0 {
-                            queue.push(child);
-                        }
+            for child in children.get(current).into_iter().flatten() {
+                if let Some(degree) = in_degree.get_mut(child) {
+                    *degree = degree.saturating_sub(1);
+                    if *degree == 0 {
+                        queue.push(child);
                     }
                 }
             }
@@ -106,50 +104,11 @@ impl<'a> StyleAnalyzer<'a> {
         if result.len() == style_map.len() {
             Some(result)
         } else {
-            // Not all styles processed - circular dependency exists
+            // Some styles wait for each other forever - circular dependency
+            self.conflicts.push(StyleConflict::circular_inheritance(
+                dependencies.keys().copied().collect(),
+            ));
             None
         }
     }
-
-    /// Check for circular dependencies using DFS
-    fn has_circular_dependency(dependencies: &BTreeMap<&str, BTreeSet<&str>>) -> bool {
-        let mut visited = BTreeSet::new();
-        let mut rec_stack = BTreeSet::new();
-
-        for node in dependencies.keys() {
-            if !visited.contains(node)
-                && Self::dfs_has_cycle(node, dependencies, &mut visited, &mut rec_stack)
-            {
-                return true;
-            }
-        }
-
-        false
-    }
-
-    /// DFS helper for cycle detection
-    fn dfs_has_cycle<'b>(
-        node: &'b str,
-        dependencies: &BTreeMap<&'b str, BTreeSet<&'b str>>,
-        visited: &mut BTreeSet<&'b str>,
-        rec_stack: &mut BTreeSet<&'b str>,
-    ) -> bool {
-        visited.insert(node);
-        rec_stack.insert(node);
-
-        if let Some(neighbors) = dependencies.get(node) {
-            for neighbor in neighbors {
-                if !visited.contains(neighbor) {
-                    if Self::dfs_has_cycle(neighbor, dependencies, visited, rec_stack) {
-                        return true;
-                    }
-                } else if rec_stack.contains(neighbor) {
-                    return true;
-                }
-            }
-        }
-
-        rec_stack.remove(node);
-        false
-    }
 }
-- 
2.43.0


From ced8bd3a0078f7ddbd58ccb273c61846606141a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 30/94] fix: skip blank and Format lines of an unknown section
 in linear time

Each blank line rescanned the whole blank run behind it, and each Format line
searched the rest of the script again.
---
 crates/ass-core/parser/main/helpers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/main/helpers.rs b/crates/ass-core/parser/main/helpers.rs
index 45c294a..734ea65 100644
--- a/crates/ass-core/parser/main/helpers.rs
+++ b/crates/ass-core/parser/main/helpers.rs
@@ -62,6 +62,7 @@ impl Parser<'_> {
     /// Skip to next section for error recovery
     pub(super) fn skip_to_next_section(&mut self) -> Option<String> {
         let mut suggestion = None;
+        let mut format_seen = false;
         let start_position = self.position;
 
         while self.position < self.source.len() {
@@ -69,6 +70,10 @@ impl Parser<'_> {
                 break;
             }
 
+            // Blank space cannot start a section: step over all of it at once
+            let remaining = &self.source[self.position..];
+            self.advance_over(remaining.len() - remaining.trim_start().len());
+
             // Look for patterns that suggest what section this might be
             let line_start = self.position;
             let line_end = self.source[self.position..]
@@ -90,8 +95,10 @@ impl Parser<'_> {
                         || line.trim_start().starts_with("ScriptType:")
                     {
                         suggestion = Some("Did you mean '[Script Info]'?".to_string());
-                    } else if line.trim_start().starts_with("Format:") {
-                        // Format lines could be in styles or events
+                    } else if !format_seen && line.trim_start().starts_with("Format:") {
+                        // Format lines could be in styles or events; what follows the
+                        // first one decides, as what follows a later one is part of it
+                        format_seen = true;
                         let remaining = &self.source[self.position..];
                         if remaining.contains("Dialogue:") {
                             suggestion = Some("Did you mean '[Events]'?".to_string());
-- 
2.43.0


From a77f73ca3a10cfc18424c7f403a8da2975248cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 31/94] fix: do not compare the rest of the script with itself
 before each section

---
 crates/ass-core/parser/main/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/main/helpers.rs b/crates/ass-core/parser/main/helpers.rs
index 734ea65..a0e770c 100644
--- a/crates/ass-core/parser/main/helpers.rs
+++ b/crates/ass-core/parser/main/helpers.rs
@@ -51,7 +51,7 @@ impl Parser<'_> {
             if trimmed.starts_with(';') || trimmed.starts_with("!:") {
                 self.advance_over(remaining.len() - trimmed.len());
                 self.skip_line();
-            } else if trimmed != remaining {
+            } else if trimmed.len() != remaining.len() {
                 self.advance_over(remaining.len() - trimmed.len());
             } else {
                 break;
-- 
2.43.0


From ec9cf5c25c6194e70b1397ae7f1808711266cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 32/94] fix: undo a replacement over its new text, redo keeps
 the entries still to be redone

---
 .../ass-editor/core/document/delta_apply.rs   |  2 +-
 crates/ass-editor/core/document/undo_redo.rs  | 23 ++++++++-----------
 crates/ass-editor/core/history/manager.rs     |  5 ++++
 crates/ass-editor/core/history/stack_impl.rs  |  9 ++++++++
 4 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index a676159..f4b16d8 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -40,7 +40,7 @@ impl EditorDocument {
     }
 
     /// Apply a script delta for efficient incremental parsing (internal)
-    fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
+    pub(super) fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
         // Parse the current script to get sections
         let current_content = self.text();
         let script = Script::parse(&current_content).map_err(EditorError::from)?;
diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index b62b543..af6d63a 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -47,10 +47,13 @@ impl EditorDocument {
                     result.new_cursor = entry.cursor_before;
                 }
                 Operation::Replace {
-                    range, old_text, ..
+                    range,
+                    old_text,
+                    new_text,
                 } => {
-                    // Undo replace by restoring old text
-                    self.replace_raw(*range, old_text)?;
+                    // Undo replace by restoring old text where the new text stands
+                    let new_end = Position::new(range.start.offset + new_text.len());
+                    self.replace_raw(Range::new(range.start, new_end), old_text)?;
                     let end_pos = Position::new(range.start.offset + old_text.len());
                     result.modified_range = Some(Range::new(range.start, end_pos));
                     result.new_cursor = entry.cursor_before;
@@ -134,7 +137,7 @@ impl EditorDocument {
                     undo_data: _,
                 } => {
                     // Re-apply the delta
-                    self.apply_script_delta(forward.clone())?;
+                    self.apply_script_delta_internal(forward.clone())?;
                     result.message = Some("Delta re-applied".to_string());
                 }
             }
@@ -145,16 +148,8 @@ impl EditorDocument {
                 self.history.set_cursor(Some(cursor));
             }
 
-            // Create a new history entry for the redo operation
-            let new_entry = crate::core::history::HistoryEntry::new(
-                entry.operation,
-                entry.description,
-                &result,
-                entry.cursor_before,
-            );
-
-            // Push back to undo stack
-            self.history.stack_mut().push(new_entry);
+            // Back to the undo stack; the entries still to be redone stay
+            self.history.push_undo_entry(entry);
 
             result.message = Some("Redo successful".to_string());
             Ok(result)
diff --git a/crates/ass-editor/core/history/manager.rs b/crates/ass-editor/core/history/manager.rs
index e1d69ad..24f4064 100644
--- a/crates/ass-editor/core/history/manager.rs
+++ b/crates/ass-editor/core/history/manager.rs
@@ -151,6 +151,11 @@ impl UndoManager {
         self.stack.pop_redo()
     }
 
+    /// Push a redone entry back to the undo stack
+    pub fn push_undo_entry(&mut self, entry: HistoryEntry) {
+        self.stack.push_undo(entry);
+    }
+
     /// Push an entry to redo stack
     pub fn push_redo_entry(&mut self, entry: HistoryEntry) {
         self.stack.push_redo(entry);
diff --git a/crates/ass-editor/core/history/stack_impl.rs b/crates/ass-editor/core/history/stack_impl.rs
index d647100..2f5bbdd 100644
--- a/crates/ass-editor/core/history/stack_impl.rs
+++ b/crates/ass-editor/core/history/stack_impl.rs
@@ -73,6 +73,15 @@ impl UndoStack {
         }
     }
 
+    /// Push an entry onto the undo stack, keeping the redo stack
+    ///
+    /// Used when an entry is redone, as opposed to [`push`](Self::push) for new entries.
+    pub fn push_undo(&mut self, entry: HistoryEntry) {
+        self.current_memory += entry.memory_usage;
+        self.undo_stack.push_front(entry);
+        self.enforce_limits();
+    }
+
     /// Push an entry onto the redo stack
     pub fn push_redo(&mut self, entry: HistoryEntry) {
         self.current_memory += entry.memory_usage;
-- 
2.43.0


From 358c2824e961bfa8b40aa92738415da5ebaa0a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:11 +0000
Subject: [PATCH 33/94] fix: refuse document edits whose offsets split a
 character

---
 .../ass-editor/core/document/editing_raw.rs   | 42 +++++++++++++++----
 .../ass-editor/core/document/text_access.rs   |  8 +---
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9f8e595..f74d22e 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -7,7 +7,40 @@ use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
 
+#[cfg(not(feature = "std"))]
+use alloc::format;
+
 impl EditorDocument {
+    /// Check that a byte offset within the document does not split a character
+    pub(super) fn check_char_boundary(&self, offset: usize) -> Result<()> {
+        #[cfg(feature = "rope")]
+        let on_boundary =
+            self.text_rope.char_to_byte(self.text_rope.byte_to_char(offset)) == offset;
+        #[cfg(not(feature = "rope"))]
+        let on_boundary = self.text_content.is_char_boundary(offset);
+
+        if on_boundary {
+            Ok(())
+        } else {
+            Err(EditorError::command_failed(format!(
+                "Position {offset} is not on a UTF-8 character boundary"
+            )))
+        }
+    }
+
+    /// Check that a range lies within the document and does not split characters
+    pub(super) fn check_range(&self, range: Range) -> Result<()> {
+        if range.start.offset > range.end.offset || range.end.offset > self.len_bytes() {
+            return Err(EditorError::InvalidRange {
+                start: range.start.offset,
+                end: range.end.offset,
+                length: self.len_bytes(),
+            });
+        }
+        self.check_char_boundary(range.start.offset)?;
+        self.check_char_boundary(range.end.offset)
+    }
+
     /// Insert text at position (low-level operation without undo)
     pub(crate) fn insert_raw(&mut self, pos: Position, text: &str) -> Result<()> {
         if pos.offset > self.len_bytes() {
@@ -16,6 +49,7 @@ impl EditorDocument {
                 length: self.len_bytes(),
             });
         }
+        self.check_char_boundary(pos.offset)?;
 
         #[cfg(feature = "rope")]
         {
@@ -34,13 +68,7 @@ impl EditorDocument {
 
     /// Delete text in range (low-level operation without undo)
     pub(crate) fn delete_raw(&mut self, range: Range) -> Result<()> {
-        if range.end.offset > self.len_bytes() {
-            return Err(EditorError::InvalidRange {
-                start: range.start.offset,
-                end: range.end.offset,
-                length: self.len_bytes(),
-            });
-        }
+        self.check_range(range)?;
 
         #[cfg(feature = "rope")]
         {
diff --git a/crates/ass-editor/core/document/text_access.rs b/crates/ass-editor/core/document/text_access.rs
index 0ef773b..1cb6346 100644
--- a/crates/ass-editor/core/document/text_access.rs
+++ b/crates/ass-editor/core/document/text_access.rs
@@ -81,13 +81,7 @@ impl EditorDocument {
         let start = range.start.offset;
         let end = range.end.offset;
 
-        if end > self.len_bytes() {
-            return Err(EditorError::InvalidRange {
-                start,
-                end,
-                length: self.len_bytes(),
-            });
-        }
+        self.check_range(range)?;
 
         #[cfg(feature = "rope")]
         {
-- 
2.43.0


From 8288ff84ff625e70a993340dd7a6d545947e3780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:46 +0000
Subject: [PATCH 34/94] fix: incremental edits start from the current text, can
 be undone and are announced

---
 .../core/document/incremental_edit.rs         | 27 ++++++++-----------
 .../core/document/incremental_fast.rs         | 15 ++++++++++-
 crates/ass-editor/core/incremental/apply.rs   | 23 +++++++++++-----
 crates/ass-editor/core/incremental/state.rs   |  7 +++++
 4 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/crates/ass-editor/core/document/incremental_edit.rs b/crates/ass-editor/core/document/incremental_edit.rs
index 0218252..ddf9bc7 100644
--- a/crates/ass-editor/core/document/incremental_edit.rs
+++ b/crates/ass-editor/core/document/incremental_edit.rs
@@ -39,13 +39,12 @@ impl EditorDocument {
         }
 
         // Get the old text for undo data
-        #[cfg(feature = "std")]
         let old_text = self.text_range(range)?;
-        #[cfg(not(feature = "std"))]
-        let _old_text = self.text_range(range)?;
 
         // Apply change with incremental parsing (includes fallback to full parse)
+        // The parser has not seen edits made elsewhere, so start from the current text
         let current_text = self.text();
+        self.incremental_parser.synchronize(&current_text);
         let delta = match self
             .incremental_parser
             .apply_change(&current_text, range, new_text)
@@ -80,13 +79,11 @@ impl EditorDocument {
             }
         };
 
-        // Create undo data from the delta (must be captured BEFORE applying changes)
-        let undo_data = self.capture_delta_undo_data(&delta)?;
-
-        // Create delta operation for history
-        let operation = Operation::Delta {
-            forward: delta.clone(),
-            undo_data,
+        // Create operation for history
+        let operation = Operation::Replace {
+            range,
+            old_text: old_text.clone(),
+            new_text: new_text.to_string(),
         };
 
         // Create command result
@@ -95,6 +92,9 @@ impl EditorDocument {
             Position::new(range.start.offset + new_text.len()),
         );
 
+        // Apply the text change
+        self.replace_raw(range, new_text)?;
+
         // Record in history
         let result_with_delta = result.with_delta(delta.clone());
         self.history.record_operation(
@@ -102,12 +102,7 @@ impl EditorDocument {
             format!("Incremental edit at {}", range.start.offset),
             &result_with_delta,
         );
-
-        // Apply the text change
-        self.replace_raw(range, new_text)?;
-
-        // Mark as modified
-        self.modified = true;
+        self.validator.clear_cache();
 
         // Emit event
         #[cfg(feature = "std")]
diff --git a/crates/ass-editor/core/document/incremental_fast.rs b/crates/ass-editor/core/document/incremental_fast.rs
index bcb1df5..ee3b131 100644
--- a/crates/ass-editor/core/document/incremental_fast.rs
+++ b/crates/ass-editor/core/document/incremental_fast.rs
@@ -10,6 +10,9 @@ use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::script::ScriptDeltaOwned;
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
     string::{String, ToString},
@@ -46,7 +49,7 @@ impl EditorDocument {
         let operation = Operation::Replace {
             range,
             new_text: new_text.to_string(),
-            old_text,
+            old_text: old_text.clone(),
         };
 
         // Create result
@@ -59,9 +62,19 @@ impl EditorDocument {
         self.history
             .record_operation(operation, "Fast character insert".to_string(), &result);
 
+        self.validator.clear_cache();
+
         // Mark as modified
         self.modified = true;
 
+        // Emit event
+        #[cfg(feature = "std")]
+        self.emit(DocumentEvent::TextReplaced {
+            range,
+            old_text,
+            new_text: new_text.to_string(),
+        });
+
         // Return minimal delta
         Ok(ScriptDeltaOwned {
             added: Vec::new(),
diff --git a/crates/ass-editor/core/incremental/apply.rs b/crates/ass-editor/core/incremental/apply.rs
index 5ccf12f..90247bb 100644
--- a/crates/ass-editor/core/incremental/apply.rs
+++ b/crates/ass-editor/core/incremental/apply.rs
@@ -13,7 +13,10 @@ use ass_core::parser::{script::ScriptDeltaOwned, Script};
 use std::borrow::Cow;
 
 #[cfg(not(feature = "std"))]
-use alloc::{borrow::Cow, string::ToString};
+use alloc::{
+    borrow::Cow,
+    string::{String, ToString},
+};
 
 impl IncrementalParser {
     /// Apply a change incrementally, returning the delta
@@ -23,11 +26,6 @@ impl IncrementalParser {
         range: Range,
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
-        // If we don't have a cached script or too many changes accumulated, do full parse
-        if self.cached_script.is_none() || self.bytes_changed >= self.reparse_threshold {
-            return self.full_reparse(document_text);
-        }
-
         // Validate range
         if range.end.offset > document_text.len() || range.start.offset > range.end.offset {
             return Err(EditorError::InvalidRange {
@@ -53,6 +51,17 @@ impl IncrementalParser {
             ));
         }
 
+        // Get the document text after the change
+        let mut changed_text = String::with_capacity(document_text.len() + new_text.len());
+        changed_text.push_str(&document_text[..range.start.offset]);
+        changed_text.push_str(new_text);
+        changed_text.push_str(&document_text[range.end.offset..]);
+
+        // If we don't have a cached script or too many changes accumulated, do full parse
+        if self.cached_script.is_none() || self.bytes_changed >= self.reparse_threshold {
+            return self.full_reparse(&changed_text);
+        }
+
         // Get the old text being replaced
         let old_text = &document_text[range.start.offset..range.end.offset];
         let (start_byte, end_byte) = (range.start.offset, range.end.offset);
@@ -101,7 +110,7 @@ impl IncrementalParser {
                 #[cfg(feature = "std")]
                 eprintln!("Incremental parse failed, falling back to full parse: {_e}");
 
-                self.full_reparse(document_text)
+                self.full_reparse(&changed_text)
             }
         }
     }
diff --git a/crates/ass-editor/core/incremental/state.rs b/crates/ass-editor/core/incremental/state.rs
index 4f51a59..dcfd48e 100644
--- a/crates/ass-editor/core/incremental/state.rs
+++ b/crates/ass-editor/core/incremental/state.rs
@@ -36,6 +36,13 @@ impl IncrementalParser {
         self.bytes_changed = 0;
     }
 
+    /// Replace a cached script that is not the given document text
+    pub(crate) fn synchronize(&mut self, content: &str) {
+        if self.cached_script.as_deref() != Some(content) {
+            self.initialize_cache(content);
+        }
+    }
+
     /// Check if there's a cached script available
     pub fn has_cached_script(&self) -> bool {
         self.cached_script.is_some()
-- 
2.43.0


From a6078ab9ad5d0502283732a283326601ee52a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 35/94] fix: a command becomes one undoable edit, and changes
 nothing when it fails

---
 crates/ass-editor/commands/batch_command.rs   |  11 +-
 .../ass-editor/core/document/delta_apply.rs   |  22 +---
 crates/ass-editor/core/document/delta_undo.rs | 119 ------------------
 .../ass-editor/core/document/grouped_edit.rs  | 116 +++++++++++++++++
 crates/ass-editor/core/document/mod.rs        |   3 +-
 crates/ass-editor/core/document/validation.rs |  76 +----------
 6 files changed, 132 insertions(+), 215 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/delta_undo.rs
 create mode 100644 crates/ass-editor/core/document/grouped_edit.rs

diff --git a/crates/ass-editor/commands/batch_command.rs b/crates/ass-editor/commands/batch_command.rs
index 29308bb..8a96798 100644
--- a/crates/ass-editor/commands/batch_command.rs
+++ b/crates/ass-editor/commands/batch_command.rs
@@ -52,10 +52,9 @@ impl BatchCommand {
         self.commands.extend(commands);
         self
     }
-}
 
-impl EditorCommand for BatchCommand {
-    fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
+    /// Execute the commands in order, stopping at the first failure
+    fn run_all(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let mut overall_result = CommandResult::success();
         let mut first_range: Option<Range> = None;
         let mut last_cursor: Option<Position> = None;
@@ -92,6 +91,12 @@ impl EditorCommand for BatchCommand {
 
         Ok(overall_result)
     }
+}
+
+impl EditorCommand for BatchCommand {
+    fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
+        document.run_as_one_edit(&self.description, |document| self.run_all(document))
+    }
 
     fn description(&self) -> &str {
         &self.description
diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index f4b16d8..4ccb14e 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -18,24 +18,10 @@ use alloc::string::ToString;
 impl EditorDocument {
     /// Apply a script delta and record it with undo data
     pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
-        use crate::core::history::Operation;
-
-        // Capture undo data before applying
-        let undo_data = self.capture_delta_undo_data(&delta)?;
-
-        // Apply delta
-        self.apply_script_delta_internal(delta.clone())?;
-
-        // Record with undo data
-        let operation = Operation::Delta {
-            forward: delta,
-            undo_data,
-        };
-
-        let result = CommandResult::success();
-        self.history
-            .record_operation(operation, "Apply delta".to_string(), &result);
-
+        self.run_as_one_edit("Apply delta", |document| {
+            document.apply_script_delta_internal(delta)?;
+            Ok(CommandResult::success())
+        })?;
         Ok(())
     }
 
diff --git a/crates/ass-editor/core/document/delta_undo.rs b/crates/ass-editor/core/document/delta_undo.rs
deleted file mode 100644
index d0a7f8d..0000000
--- a/crates/ass-editor/core/document/delta_undo.rs
+++ /dev/null
@@ -1,119 +0,0 @@
-//! Capturing undo data for script deltas
-//!
-//! Snapshots the pre-edit text of sections that a delta will remove or
-//! modify so the change can later be reversed. Exposed as `pub(super)` for
-//! the apply and incremental-edit submodules.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-use ass_core::parser::ast::Section;
-use ass_core::parser::script::ScriptDeltaOwned;
-
-#[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
-
-impl EditorDocument {
-    /// Capture undo data before applying a delta
-    pub(super) fn capture_delta_undo_data(
-        &self,
-        delta: &ScriptDeltaOwned,
-    ) -> Result<crate::core::history::DeltaUndoData> {
-        let mut removed_sections = Vec::new();
-        let mut modified_sections = Vec::new();
-
-        // First, get the current content for section extraction
-        let content = self.text();
-
-        // For incremental edits, use simplified undo data to avoid expensive full parsing
-        // Only do detailed section analysis for larger operations
-        #[cfg(feature = "stream")]
-        let is_small_edit = delta.added.len() + delta.removed.len() + delta.modified.len() <= 2;
-        #[cfg(not(feature = "stream"))]
-        let is_small_edit = false;
-
-        if is_small_edit {
-            // For small incremental edits, skip expensive undo data capture
-            // The basic text-based undo in edit_incremental will handle this
-        } else {
-            // For larger operations, do full undo data capture
-            let _ = self.parse_script_with(|script| {
-                // Capture removed sections
-                for &index in &delta.removed {
-                    if let Some(section) = script.sections().get(index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => removed_sections.push((index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                removed_sections.push((index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                // Capture original state of modified sections
-                for (index, _) in &delta.modified {
-                    if let Some(section) = script.sections().get(*index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => modified_sections.push((*index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                modified_sections.push((*index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                Ok::<(), EditorError>(())
-            })?;
-        }
-
-        Ok(crate::core::history::DeltaUndoData {
-            removed_sections,
-            modified_sections,
-        })
-    }
-
-    /// Extract section text from content
-    fn extract_section_text(&self, content: &str, section: &Section) -> Result<String> {
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the content
-        let start = content
-            .find(header)
-            .ok_or_else(|| EditorError::SectionNotFound {
-                section: header.to_string(),
-            })?;
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let end = content[start + header.len()..]
-            .find(|_c: char| {
-                for sh in &section_headers {
-                    if content[start + header.len()..].starts_with(sh) {
-                        return true;
-                    }
-                }
-                false
-            })
-            .map(|pos| start + header.len() + pos)
-            .unwrap_or(content.len());
-
-        Ok(content[start..end].to_string())
-    }
-}
diff --git a/crates/ass-editor/core/document/grouped_edit.rs b/crates/ass-editor/core/document/grouped_edit.rs
new file mode 100644
index 0000000..a7127ed
--- /dev/null
+++ b/crates/ass-editor/core/document/grouped_edit.rs
@@ -0,0 +1,116 @@
+//! Running several edits as one
+//!
+//! `run_as_one_edit` backs command execution: the edits made by a closure become
+//! a single history entry and a single event, or are taken back when it fails.
+
+use super::EditorDocument;
+use crate::commands::CommandResult;
+use crate::core::errors::Result;
+use crate::core::history::Operation;
+use crate::core::position::{Position, Range};
+
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
+#[cfg(not(feature = "std"))]
+use alloc::string::{String, ToString};
+
+impl EditorDocument {
+    /// Run edits that belong together, all or nothing
+    pub(crate) fn run_as_one_edit<F>(&mut self, description: &str, edits: F) -> Result<CommandResult>
+    where
+        F: FnOnce(&mut Self) -> Result<CommandResult>,
+    {
+        let old_text = self.text();
+        let was_modified = self.modified;
+        let cursor = self.cursor_position();
+
+        // The edits' own history entries and events are replaced by one of each
+        let history = core::mem::take(&mut self.history);
+        self.history.set_cursor(cursor);
+        #[cfg(feature = "std")]
+        let event_tx = self.event_tx.take();
+
+        let outcome = edits(self);
+
+        self.history = history;
+        #[cfg(feature = "std")]
+        {
+            self.event_tx = event_tx;
+        }
+
+        let new_text = self.text();
+        let succeeded = outcome.as_ref().is_ok_and(|result| result.success);
+        if !succeeded {
+            if new_text != old_text {
+                self.set_text_raw(&old_text);
+            }
+            self.modified = was_modified;
+            return outcome;
+        }
+
+        let mut result = outcome?;
+        if new_text != old_text {
+            let (range, old_part, new_part) = changed_part(&old_text, &new_text);
+            result.content_changed = true;
+            self.history.record_operation(
+                Operation::Replace {
+                    range,
+                    old_text: old_part.to_string(),
+                    new_text: new_part.to_string(),
+                },
+                description.to_string(),
+                &result,
+            );
+            self.validator.clear_cache();
+            #[cfg(feature = "std")]
+            self.emit(DocumentEvent::TextReplaced {
+                range,
+                old_text: old_part.to_string(),
+                new_text: new_part.to_string(),
+            });
+        } else if result.new_cursor.is_some() {
+            self.set_cursor_position(result.new_cursor);
+        }
+        Ok(result)
+    }
+
+    /// Replace the whole text without recording it
+    fn set_text_raw(&mut self, text: &str) {
+        #[cfg(feature = "rope")]
+        {
+            self.text_rope = ropey::Rope::from_str(text);
+        }
+        #[cfg(not(feature = "rope"))]
+        {
+            self.text_content = String::from(text);
+        }
+    }
+}
+
+/// Find the part in which two texts differ
+fn changed_part<'a>(old: &'a str, new: &'a str) -> (Range, &'a str, &'a str) {
+    let mut start = old
+        .bytes()
+        .zip(new.bytes())
+        .take_while(|(a, b)| a == b)
+        .count();
+    while !old.is_char_boundary(start) {
+        start -= 1;
+    }
+    let mut tail = old[start..]
+        .bytes()
+        .rev()
+        .zip(new[start..].bytes().rev())
+        .take_while(|(a, b)| a == b)
+        .count();
+    while !old.is_char_boundary(old.len() - tail) {
+        tail -= 1;
+    }
+    let old_end = old.len() - tail;
+    (
+        Range::new(Position::new(start), Position::new(old_end)),
+        &old[start..old_end],
+        &new[start..new.len() - tail],
+    )
+}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index ccf331f..0ef38e3 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -10,6 +10,7 @@ mod editing;
 mod editing_raw;
 mod event_edit;
 mod event_line;
+mod grouped_edit;
 mod incremental_parse;
 mod metadata;
 mod position_api;
@@ -24,8 +25,6 @@ mod delta_apply;
 #[cfg(feature = "stream")]
 mod delta_sections;
 #[cfg(feature = "stream")]
-mod delta_undo;
-#[cfg(feature = "stream")]
 mod incremental_edit;
 #[cfg(feature = "stream")]
 mod incremental_fast;
diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index ecac929..41c95e0 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -5,7 +5,6 @@
 
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
-use crate::core::position::{Position, Range};
 use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
@@ -40,82 +39,13 @@ impl EditorDocument {
     /// This method ensures that commands are properly recorded in the undo history.
     /// Use this instead of calling command.execute() directly if you want undo support.
     ///
-    /// For BatchCommand, this creates a synthetic undo operation that captures
-    /// the aggregate effect of all sub-commands.
+    /// Whatever the command did becomes one entry of the history. A command that
+    /// fails leaves the document as it was.
     pub fn execute_command(
         &mut self,
         command: &dyn crate::commands::EditorCommand,
     ) -> Result<crate::commands::CommandResult> {
-        use crate::core::history::Operation;
-
-        // Get the cursor position before
-        let _cursor_before = self.cursor_position();
-
-        // Execute the command
-        let result = command.execute(self)?;
-
-        // Only record if the command changed content
-        if result.content_changed {
-            // Determine the operation based on the result
-            let operation = if let Some(range) = result.modified_range {
-                if range.is_empty() {
-                    // This was an insertion
-                    let inserted_text = self.text_range(Range::new(
-                        range.start,
-                        Position::new(
-                            range.start.offset
-                                + result
-                                    .new_cursor
-                                    .map_or(0, |c| c.offset - range.start.offset),
-                        ),
-                    ))?;
-                    Operation::Insert {
-                        position: range.start,
-                        text: inserted_text,
-                    }
-                } else {
-                    // For batch commands and complex operations, we need to be more careful
-                    // Store enough information to properly undo
-                    // This is a simplified approach - ideally each command would handle its own undo
-                    let cmd_desc = command.description();
-                    if cmd_desc.contains("batch") || cmd_desc.contains("Multiple") {
-                        // For batch operations, we don't have enough info
-                        // Just use a simple insert operation
-                        Operation::Insert {
-                            position: range.start,
-                            text: String::new(),
-                        }
-                    } else {
-                        // For simple operations, use the range info
-                        Operation::Replace {
-                            range,
-                            old_text: String::new(), // We don't have the old text
-                            new_text: self.text_range(range).unwrap_or_default(),
-                        }
-                    }
-                }
-            } else {
-                // No range info - create a generic operation
-                Operation::Insert {
-                    position: Position::new(0),
-                    text: String::new(),
-                }
-            };
-
-            // Update cursor if needed
-            if let Some(new_cursor) = result.new_cursor {
-                self.set_cursor_position(Some(new_cursor));
-            }
-
-            // Record in history
-            self.history
-                .record_operation(operation, command.description().to_string(), &result);
-
-            // Clear validation cache since content changed
-            self.validator.clear_cache();
-        }
-
-        Ok(result)
+        self.run_as_one_edit(command.description(), |document| command.execute(document))
     }
 
     /// Perform comprehensive validation using the LazyValidator
-- 
2.43.0


From 368ae177c5ada50ad2d40527d44352e4993e515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:45 +0000
Subject: [PATCH 36/94] fix: fluent, text and shared-document commands are
 recorded in the history

---
 crates/ass-editor/commands/fluent_builder.rs  | 14 ++++++-------
 .../ass-editor/core/fluent/event_deleter.rs   | 16 +++++++--------
 .../core/fluent/event_merge_timing.rs         | 14 ++++++-------
 crates/ass-editor/core/fluent/event_ops.rs    |  8 ++++----
 .../core/fluent/event_toggle_effect.rs        | 12 +++++------
 crates/ass-editor/core/fluent/karaoke.rs      |  4 ++--
 .../core/fluent/karaoke_builders.rs           | 20 +++++++++----------
 crates/ass-editor/core/fluent/media.rs        | 18 ++++++++---------
 crates/ass-editor/core/fluent/script_info.rs  | 10 +++++-----
 crates/ass-editor/core/fluent/style.rs        | 11 +++++-----
 crates/ass-editor/core/fluent/tag.rs          | 18 ++++++++---------
 .../core/thread_safety/sync_document.rs       |  2 +-
 12 files changed, 73 insertions(+), 74 deletions(-)

diff --git a/crates/ass-editor/commands/fluent_builder.rs b/crates/ass-editor/commands/fluent_builder.rs
index 740295e..3ab9865 100644
--- a/crates/ass-editor/commands/fluent_builder.rs
+++ b/crates/ass-editor/commands/fluent_builder.rs
@@ -3,7 +3,7 @@
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 use super::{
-    CommandResult, DeleteTextCommand, EditorCommand, InsertTextCommand, ReplaceTextCommand,
+    CommandResult, DeleteTextCommand, InsertTextCommand, ReplaceTextCommand,
 };
 
 #[cfg(not(feature = "std"))]
@@ -62,7 +62,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Position not set for insert operation"))?;
 
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Delete text in the current range
@@ -72,7 +72,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for delete operation"))?;
 
         let command = DeleteTextCommand::new(range);
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Replace text in the current range
@@ -82,7 +82,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for replace operation"))?;
 
         let command = ReplaceTextCommand::new(range, new_text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 }
 
@@ -108,16 +108,16 @@ impl DocumentCommandExt for EditorDocument {
 
     fn insert_at(&mut self, position: Position, text: &str) -> Result<CommandResult> {
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn delete_range(&mut self, range: Range) -> Result<CommandResult> {
         let command = DeleteTextCommand::new(range);
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn replace_range(&mut self, range: Range, text: &str) -> Result<CommandResult> {
         let command = ReplaceTextCommand::new(range, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_deleter.rs b/crates/ass-editor/core/fluent/event_deleter.rs
index 349dd65..6defab5 100644
--- a/crates/ass-editor/core/fluent/event_deleter.rs
+++ b/crates/ass-editor/core/fluent/event_deleter.rs
@@ -1,7 +1,7 @@
 //! Fluent API for deleting events based on queries.
 
 use super::EventQuery;
-use crate::commands::{BatchDeleteEventsCommand, EditorCommand};
+use crate::commands::{BatchDeleteEventsCommand};
 use crate::core::{EditorDocument, Result};
 use ass_core::parser::ast::EventType;
 
@@ -35,7 +35,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Dialogue)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -45,7 +45,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Comment)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -55,7 +55,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_time_range(start_cs, end_cs)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -65,7 +65,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_style(style)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -75,7 +75,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_text(text)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -83,7 +83,7 @@ impl<'a> EventDeleter<'a> {
     pub fn all(self) -> Result<&'a mut EditorDocument> {
         let indices = EventQuery::new(self.document).indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> EventDeleter<'a> {
             return Ok(self.document);
         }
         let command = BatchDeleteEventsCommand::new(self.indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_merge_timing.rs b/crates/ass-editor/core/fluent/event_merge_timing.rs
index 597ca06..300b9b9 100644
--- a/crates/ass-editor/core/fluent/event_merge_timing.rs
+++ b/crates/ass-editor/core/fluent/event_merge_timing.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for merging events and adjusting their timing.
 
-use crate::commands::{EditorCommand, MergeEventsCommand, TimingAdjustCommand};
+use crate::commands::{MergeEventsCommand, TimingAdjustCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -43,7 +43,7 @@ impl<'a> EventMerger<'a> {
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = MergeEventsCommand::new(self.first_index, self.second_index)
             .with_separator(self.separator);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -78,28 +78,28 @@ impl<'a> EventTimer<'a> {
     /// Shift start and end times by the same offset (preserves duration)
     pub fn shift(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only start times (changes duration)
     pub fn shift_start(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, 0);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only end times (changes duration)
     pub fn shift_end(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, 0, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Scale duration by a factor
     pub fn scale_duration(self, factor: f64) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::scale_duration(self.event_indices, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,7 +110,7 @@ impl<'a> EventTimer<'a> {
         end_offset_cs: i32,
     ) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, start_offset_cs, end_offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index 34e3f2a..69eefa4 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -5,7 +5,7 @@ use super::event_merge_timing::{EventMerger, EventTimer};
 use super::event_toggle_effect::{EventEffector, EventToggler};
 use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
 use crate::commands::{
-    BatchDeleteEventsCommand, DeleteEventCommand, EditorCommand, SplitEventCommand,
+    BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand,
 };
 use crate::core::{EditorDocument, Position, Range, Result};
 use ass_core::parser::ast::{Event, EventType, Section};
@@ -27,7 +27,7 @@ impl<'a> EventOps<'a> {
     /// Split an event at a specific time
     pub fn split(self, event_index: usize, split_time: &str) -> Result<&'a mut EditorDocument> {
         let command = SplitEventCommand::new(event_index, split_time.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -151,14 +151,14 @@ impl<'a> EventOps<'a> {
     /// Delete a single event by index
     pub fn delete(self, index: usize) -> Result<&'a mut EditorDocument> {
         let command = DeleteEventCommand::new(index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Delete multiple events by indices
     pub fn delete_multiple(self, indices: Vec<usize>) -> Result<&'a mut EditorDocument> {
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/event_toggle_effect.rs b/crates/ass-editor/core/fluent/event_toggle_effect.rs
index 4853697..7149450 100644
--- a/crates/ass-editor/core/fluent/event_toggle_effect.rs
+++ b/crates/ass-editor/core/fluent/event_toggle_effect.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for toggling event types and modifying effects.
 
-use crate::commands::{EditorCommand, EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
+use crate::commands::{EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -36,7 +36,7 @@ impl<'a> EventToggler<'a> {
     /// Execute the toggle
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = ToggleEventTypeCommand::new(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -71,21 +71,21 @@ impl<'a> EventEffector<'a> {
     /// Set the effect (replace existing)
     pub fn set(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::set_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clear all effects
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::clear_effect(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Append to existing effect
     pub fn append(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::append_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -96,7 +96,7 @@ impl<'a> EventEffector<'a> {
             effect.to_string(),
             EffectOperation::Prepend,
         );
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke.rs b/crates/ass-editor/core/fluent/karaoke.rs
index 108e29a..ba6ad49 100644
--- a/crates/ass-editor/core/fluent/karaoke.rs
+++ b/crates/ass-editor/core/fluent/karaoke.rs
@@ -1,7 +1,7 @@
 //! Fluent API for ASS karaoke operations and the karaoke generator builder.
 
 use super::karaoke_builders::{KaraokeAdjuster, KaraokeApplicator, KaraokeSplitter};
-use crate::commands::{EditorCommand, GenerateKaraokeCommand, KaraokeType};
+use crate::commands::{GenerateKaraokeCommand, KaraokeType};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -128,7 +128,7 @@ impl<'a> KaraokeGenerator<'a> {
             command = command.manual_syllables();
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke_builders.rs b/crates/ass-editor/core/fluent/karaoke_builders.rs
index dce4b1e..a041c29 100644
--- a/crates/ass-editor/core/fluent/karaoke_builders.rs
+++ b/crates/ass-editor/core/fluent/karaoke_builders.rs
@@ -5,7 +5,7 @@
 //! sibling [`super::karaoke`] module.
 
 use crate::commands::{
-    AdjustKaraokeCommand, ApplyKaraokeCommand, EditorCommand, KaraokeType, SplitKaraokeCommand,
+    AdjustKaraokeCommand, ApplyKaraokeCommand, KaraokeType, SplitKaraokeCommand,
 };
 use crate::core::{EditorDocument, Range, Result};
 
@@ -36,7 +36,7 @@ impl<'a> KaraokeSplitter<'a> {
             command = command.duration(duration);
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -51,28 +51,28 @@ impl<'a> KaraokeAdjuster<'a> {
     /// Scale timing by factor
     pub fn scale(self, factor: f32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::scale(self.range, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Offset timing by centiseconds
     pub fn offset(self, offset: i32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::offset(self.range, offset);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Set all timing to specific duration
     pub fn set_all(self, duration: u32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::set_all(self.range, duration);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Apply custom timing to each syllable
     pub fn custom(self, timings: Vec<u32>) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::custom(self.range, timings);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -87,7 +87,7 @@ impl<'a> KaraokeApplicator<'a> {
     /// Apply equal timing
     pub fn equal(self, duration: u32, karaoke_type: KaraokeType) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::equal(self.range, duration, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -99,7 +99,7 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::beat(self.range, bpm, beats_per_syllable, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,14 +110,14 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::pattern(self.range, durations, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Import timing from another event
     pub fn import_from(self, source_event_index: usize) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::import_from(self.range, source_event_index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/media.rs b/crates/ass-editor/core/fluent/media.rs
index 5146d46..8c0beab 100644
--- a/crates/ass-editor/core/fluent/media.rs
+++ b/crates/ass-editor/core/fluent/media.rs
@@ -1,7 +1,7 @@
 //! Fluent API for managing embedded fonts and graphics.
 
 use crate::commands::{
-    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, EditorCommand,
+    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand,
     ListFontsCommand, ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
 };
 use crate::core::{EditorDocument, Result};
@@ -26,21 +26,21 @@ impl<'a> FontsOps<'a> {
     /// Add a font from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a font from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a font by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveFontCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -58,7 +58,7 @@ impl<'a> FontsOps<'a> {
     /// Clear all fonts
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearFontsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -82,21 +82,21 @@ impl<'a> GraphicsOps<'a> {
     /// Add a graphic from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a graphic from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a graphic by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveGraphicCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -114,7 +114,7 @@ impl<'a> GraphicsOps<'a> {
     /// Clear all graphics
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearGraphicsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/script_info.rs b/crates/ass-editor/core/fluent/script_info.rs
index f2688e8..24f2ae9 100644
--- a/crates/ass-editor/core/fluent/script_info.rs
+++ b/crates/ass-editor/core/fluent/script_info.rs
@@ -1,7 +1,7 @@
 //! Fluent API for managing Script Info properties.
 
 use crate::commands::{
-    DeleteScriptInfoCommand, EditorCommand, GetAllScriptInfoCommand, GetScriptInfoCommand,
+    DeleteScriptInfoCommand, GetAllScriptInfoCommand, GetScriptInfoCommand,
     SetScriptInfoCommand,
 };
 use crate::core::errors::EditorError;
@@ -27,7 +27,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Set a script info property
     pub fn set(self, property: &str, value: &str) -> Result<&'a mut EditorDocument> {
         let command = SetScriptInfoCommand::new(property.to_string(), value.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -40,7 +40,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Delete a script info property
     pub fn delete(self, property: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteScriptInfoCommand::new(property.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -74,8 +74,8 @@ impl<'a> ScriptInfoOps<'a> {
     pub fn resolution(self, width: u32, height: u32) -> Result<&'a mut EditorDocument> {
         let command1 = SetScriptInfoCommand::new("PlayResX".to_string(), width.to_string());
         let command2 = SetScriptInfoCommand::new("PlayResY".to_string(), height.to_string());
-        command1.execute(self.document)?;
-        command2.execute(self.document)?;
+        self.document.execute_command(&command1)?;
+        self.document.execute_command(&command2)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/style.rs b/crates/ass-editor/core/fluent/style.rs
index d75582b..626c78c 100644
--- a/crates/ass-editor/core/fluent/style.rs
+++ b/crates/ass-editor/core/fluent/style.rs
@@ -2,7 +2,6 @@
 
 use crate::commands::{
     ApplyStyleCommand, CloneStyleCommand, CreateStyleCommand, DeleteStyleCommand, EditStyleCommand,
-    EditorCommand,
 };
 use crate::core::{EditorDocument, Result, StyleBuilder};
 
@@ -23,7 +22,7 @@ impl<'a> StyleOps<'a> {
     /// Create a new style
     pub fn create(self, name: &str, builder: StyleBuilder) -> Result<&'a mut EditorDocument> {
         let command = CreateStyleCommand::new(name.to_string(), builder);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -35,14 +34,14 @@ impl<'a> StyleOps<'a> {
     /// Delete a style
     pub fn delete(self, name: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteStyleCommand::new(name.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clone a style
     pub fn clone(self, source: &str, target: &str) -> Result<&'a mut EditorDocument> {
         let command = CloneStyleCommand::new(source.to_string(), target.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +108,7 @@ impl<'a> StyleEditor<'a> {
 
     /// Apply the changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
@@ -139,7 +138,7 @@ impl<'a> StyleApplicator<'a> {
 
     /// Apply the style changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/tag.rs b/crates/ass-editor/core/fluent/tag.rs
index c256a58..01dfa04 100644
--- a/crates/ass-editor/core/fluent/tag.rs
+++ b/crates/ass-editor/core/fluent/tag.rs
@@ -1,7 +1,7 @@
 //! Fluent API for ASS tag operations.
 
 use crate::commands::{
-    EditorCommand, InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand,
+    InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand,
     ReplaceTagCommand, WrapTagCommand,
 };
 use crate::core::errors::EditorError;
@@ -48,7 +48,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -59,7 +59,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string()).no_auto_wrap();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -70,7 +70,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -81,7 +81,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range).pattern(pattern.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +109,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string()).all();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -120,7 +120,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag wrapping"))?;
 
         let command = WrapTagCommand::new(range, opening_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -132,7 +132,7 @@ impl<'a> TagOps<'a> {
 
         let command = WrapTagCommand::new(range, opening_tag.to_string())
             .closing_tag(closing_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/thread_safety/sync_document.rs b/crates/ass-editor/core/thread_safety/sync_document.rs
index 48da221..cc0b037 100644
--- a/crates/ass-editor/core/thread_safety/sync_document.rs
+++ b/crates/ass-editor/core/thread_safety/sync_document.rs
@@ -79,7 +79,7 @@ impl SyncDocument {
 
         // Now execute the command with write access
         let mut doc = self.write()?;
-        command.execute(&mut doc)
+        doc.execute_command(&command)
     }
 
     /// Try to get a read-only reference without blocking
-- 
2.43.0


From 0b020e76ae18c3f802bebb60f6fd0d72400a1fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:39 +0000
Subject: [PATCH 37/94] fix: documents made at the same instant get different
 ids

---
 crates/ass-editor/core/document/constructors.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/document/constructors.rs b/crates/ass-editor/core/document/constructors.rs
index e47a580..619ab64 100644
--- a/crates/ass-editor/core/document/constructors.rs
+++ b/crates/ass-editor/core/document/constructors.rs
@@ -170,12 +170,16 @@ impl EditorDocument {
         // Simple ID generation - in production might use UUID
         #[cfg(feature = "std")]
         {
+            use std::sync::atomic::{AtomicU64, Ordering};
             use std::time::{SystemTime, UNIX_EPOCH};
+            // Documents made within one tick of the clock differ in their number
+            static COUNTER: AtomicU64 = AtomicU64::new(0);
+            let number = COUNTER.fetch_add(1, Ordering::Relaxed);
             let timestamp = SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap_or_default()
                 .as_nanos();
-            format!("doc_{timestamp}")
+            format!("doc_{timestamp}_{number}")
         }
         #[cfg(not(feature = "std"))]
         {
-- 
2.43.0


From 5f2e2f0fe866fa2f43cdf5fbd2eb1c3683e61270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:16 +0000
Subject: [PATCH 38/94] fix: selections and positions outside the document are
 errors, line ends exclude the whole line break

---
 .../ass-editor/core/document/position_api.rs  |  4 ++--
 crates/ass-editor/core/fluent/position.rs     | 13 ++++++-----
 crates/ass-editor/core/fluent/selection.rs    | 16 +++++---------
 crates/ass-editor/core/position/builder.rs    | 22 ++++++++++++++-----
 crates/ass-editor/core/position/mod.rs        |  3 +++
 5 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/crates/ass-editor/core/document/position_api.rs b/crates/ass-editor/core/document/position_api.rs
index 82607fc..3c2c164 100644
--- a/crates/ass-editor/core/document/position_api.rs
+++ b/crates/ass-editor/core/document/position_api.rs
@@ -22,14 +22,14 @@ impl<'a> DocumentPosition<'a> {
 
     /// Delete text range starting from this position
     pub fn delete_range(self, len: usize) -> Result<()> {
-        let end_pos = Position::new(self.position.offset + len);
+        let end_pos = self.position.advance(len);
         let range = Range::new(self.position, end_pos);
         self.document.delete(range)
     }
 
     /// Replace text at this position
     pub fn replace_text(self, len: usize, new_text: &str) -> Result<()> {
-        let end_pos = Position::new(self.position.offset + len);
+        let end_pos = self.position.advance(len);
         let range = Range::new(self.position, end_pos);
         self.document.replace(range, new_text)
     }
diff --git a/crates/ass-editor/core/fluent/position.rs b/crates/ass-editor/core/fluent/position.rs
index 99749fd..8dd936e 100644
--- a/crates/ass-editor/core/fluent/position.rs
+++ b/crates/ass-editor/core/fluent/position.rs
@@ -1,5 +1,7 @@
 //! Fluent API builder for document operations at a specific position.
 
+#[cfg(feature = "rope")]
+use crate::core::position::line_end_byte;
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "rope"))]
@@ -52,14 +54,12 @@ impl<'a> AtPosition<'a> {
     pub fn replace_to_line_end(self, text: &str) -> Result<&'a mut EditorDocument> {
         #[cfg(feature = "rope")]
         {
+            self.document.text_range(Range::empty(self.position))?;
             let rope = self.document.rope();
             let line_idx = rope.byte_to_line(self.position.offset);
-            let line_end_byte = if line_idx + 1 < rope.len_lines() {
-                rope.line_to_byte(line_idx + 1).saturating_sub(1)
-            } else {
-                rope.len_bytes()
-            };
-            let range = Range::new(self.position, Position::new(line_end_byte));
+            let line_end_byte = line_end_byte(rope, line_idx);
+
+            let range = Range::new(self.position, self.position.max(Position::new(line_end_byte)));
             self.document.replace(range, text)?;
             Ok(self.document)
         }
@@ -81,6 +81,7 @@ impl<'a> AtPosition<'a> {
     /// Convert position to line/column
     #[cfg(feature = "rope")]
     pub fn to_line_column(&self) -> Result<(usize, usize)> {
+        self.document.text_range(Range::empty(self.position))?;
         let rope = self.document.rope();
         let line_idx = rope.byte_to_line(self.position.offset);
         let line_start = rope.line_to_byte(line_idx);
diff --git a/crates/ass-editor/core/fluent/selection.rs b/crates/ass-editor/core/fluent/selection.rs
index 45b82bd..14226f7 100644
--- a/crates/ass-editor/core/fluent/selection.rs
+++ b/crates/ass-editor/core/fluent/selection.rs
@@ -38,14 +38,11 @@ impl<'a> SelectRange<'a> {
     /// Wrap the selection with ASS tags
     pub fn wrap_with_tag(self, open_tag: &str, close_tag: &str) -> Result<&'a mut EditorDocument> {
         // Get the selected text
-        let selected = self
-            .document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset);
+        let selected = self.document.text_range(self.range)?;
         let mut wrapped =
-            String::with_capacity(open_tag.len() + selected.len_bytes() + close_tag.len());
+            String::with_capacity(open_tag.len() + selected.len() + close_tag.len());
         wrapped.push_str(open_tag);
-        wrapped.push_str(&selected.to_string());
+        wrapped.push_str(&selected);
         wrapped.push_str(close_tag);
 
         self.document.replace(self.range, &wrapped)?;
@@ -56,6 +53,7 @@ impl<'a> SelectRange<'a> {
     #[cfg(feature = "rope")]
     pub fn indent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
         // Get line information before mutating
+        self.document.text_range(self.range)?;
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
         let indent = " ".repeat(spaces);
@@ -81,6 +79,7 @@ impl<'a> SelectRange<'a> {
     #[cfg(feature = "rope")]
     pub fn unindent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
         // Get line information before mutating
+        self.document.text_range(self.range)?;
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
 
@@ -119,10 +118,7 @@ impl<'a> SelectRange<'a> {
 
     /// Get the selected text
     pub fn text(&self) -> String {
-        self.document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset)
-            .to_string()
+        self.document.text_range(self.range).unwrap_or_default()
     }
 
     /// Get the range
diff --git a/crates/ass-editor/core/position/builder.rs b/crates/ass-editor/core/position/builder.rs
index 562a30a..56e2d45 100644
--- a/crates/ass-editor/core/position/builder.rs
+++ b/crates/ass-editor/core/position/builder.rs
@@ -139,11 +139,7 @@ impl PositionBuilder {
                 Ok(Position::new(line_start + byte_pos))
             } else {
                 // No column specified - go to end of line
-                let line_end = if line_idx + 1 < rope.len_lines() {
-                    rope.line_to_byte(line_idx + 1).saturating_sub(1)
-                } else {
-                    rope.len_bytes()
-                };
+                let line_end = line_end_byte(rope, line_idx);
                 Ok(Position::new(line_end))
             }
         } else {
@@ -165,3 +161,19 @@ impl PositionBuilder {
         }
     }
 }
+
+/// Byte offset at which a line ends, before its line break
+#[cfg(feature = "rope")]
+pub(crate) fn line_end_byte(rope: &ropey::Rope, line_idx: usize) -> usize {
+    let line = rope.line(line_idx);
+    let mut chars = line.chars_at(line.len_chars());
+    let line_break = match chars.prev() {
+        Some('\n') if chars.prev() == Some('\r') => 2,
+        Some('\n') => 1,
+        Some(ch @ ('\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}')) => {
+            ch.len_utf8()
+        }
+        _ => 0,
+    };
+    rope.line_to_byte(line_idx) + line.len_bytes() - line_break
+}
diff --git a/crates/ass-editor/core/position/mod.rs b/crates/ass-editor/core/position/mod.rs
index 9244b09..5cbc2e0 100644
--- a/crates/ass-editor/core/position/mod.rs
+++ b/crates/ass-editor/core/position/mod.rs
@@ -9,6 +9,9 @@ mod points;
 mod range;
 mod selection;
 
+#[cfg(feature = "rope")]
+pub(crate) use builder::line_end_byte;
+
 #[cfg(test)]
 mod tests;
 
-- 
2.43.0


From e7c535bebf2e53d1679695b3c6cf42ada8f40ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:28 +0000
Subject: [PATCH 39/94] fix: formatting of the line end helper

---
 crates/ass-editor/core/document/grouped_edit.rs | 6 +++++-
 crates/ass-editor/core/fluent/position.rs       | 5 ++++-
 crates/ass-editor/core/position/builder.rs      | 4 +---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/ass-editor/core/document/grouped_edit.rs b/crates/ass-editor/core/document/grouped_edit.rs
index a7127ed..f197925 100644
--- a/crates/ass-editor/core/document/grouped_edit.rs
+++ b/crates/ass-editor/core/document/grouped_edit.rs
@@ -17,7 +17,11 @@ use alloc::string::{String, ToString};
 
 impl EditorDocument {
     /// Run edits that belong together, all or nothing
-    pub(crate) fn run_as_one_edit<F>(&mut self, description: &str, edits: F) -> Result<CommandResult>
+    pub(crate) fn run_as_one_edit<F>(
+        &mut self,
+        description: &str,
+        edits: F,
+    ) -> Result<CommandResult>
     where
         F: FnOnce(&mut Self) -> Result<CommandResult>,
     {
diff --git a/crates/ass-editor/core/fluent/position.rs b/crates/ass-editor/core/fluent/position.rs
index 8dd936e..6a55214 100644
--- a/crates/ass-editor/core/fluent/position.rs
+++ b/crates/ass-editor/core/fluent/position.rs
@@ -59,7 +59,10 @@ impl<'a> AtPosition<'a> {
             let line_idx = rope.byte_to_line(self.position.offset);
             let line_end_byte = line_end_byte(rope, line_idx);
 
-            let range = Range::new(self.position, self.position.max(Position::new(line_end_byte)));
+            let range = Range::new(
+                self.position,
+                self.position.max(Position::new(line_end_byte)),
+            );
             self.document.replace(range, text)?;
             Ok(self.document)
         }
diff --git a/crates/ass-editor/core/position/builder.rs b/crates/ass-editor/core/position/builder.rs
index 56e2d45..b71bb75 100644
--- a/crates/ass-editor/core/position/builder.rs
+++ b/crates/ass-editor/core/position/builder.rs
@@ -170,9 +170,7 @@ pub(crate) fn line_end_byte(rope: &ropey::Rope, line_idx: usize) -> usize {
     let line_break = match chars.prev() {
         Some('\n') if chars.prev() == Some('\r') => 2,
         Some('\n') => 1,
-        Some(ch @ ('\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}')) => {
-            ch.len_utf8()
-        }
+        Some(ch @ ('\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}')) => ch.len_utf8(),
         _ => 0,
     };
     rope.line_to_byte(line_idx) + line.len_bytes() - line_break
-- 
2.43.0


From 18c1063f03de711e258fec0e78e2aafc4529dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 40/94] fix: event commands and edits change exactly the events
 and columns named

---
 .../commands/event_commands/batch_delete.rs   |  57 +-----
 .../commands/event_commands/delete.rs         |  76 ++------
 .../commands/event_commands/effect_exec.rs    | 150 +++-------------
 .../commands/event_commands/helpers.rs        | 143 ++++++---------
 .../commands/event_commands/merge.rs          | 110 ++----------
 .../commands/event_commands/split.rs          | 141 +++------------
 .../commands/event_commands/timing.rs         | 164 +++++------------
 .../commands/event_commands/toggle.rs         |  91 ++--------
 crates/ass-editor/core/builders/event.rs      |   8 +
 .../ass-editor/core/document/builder_edit.rs  | 152 +++++-----------
 crates/ass-editor/core/document/event_edit.rs | 122 +++++--------
 crates/ass-editor/core/document/event_line.rs |  83 ---------
 .../ass-editor/core/document/event_lines.rs   | 168 ++++++++++++++++++
 crates/ass-editor/core/document/mod.rs        |   3 +-
 14 files changed, 463 insertions(+), 1005 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/event_line.rs
 create mode 100644 crates/ass-editor/core/document/event_lines.rs

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 5b710c0..20d15b7 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -1,16 +1,17 @@
 //! Command to delete multiple events from an ASS document.
 
+use super::helpers::whole_line;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
+use alloc::vec::Vec;
 
 /// Command to delete multiple events from the ASS document
 ///
-/// Removes multiple events (Dialogue or Comment) at the specified indices from the `[Events]` section.
+/// Removes multiple events at the specified indices from the `[Events]` section.
 /// Indices are automatically sorted and processed in reverse order to maintain correctness.
-/// All indices are 0-based and include both Dialogue and Comment events.
+/// All indices are 0-based and count events of every kind.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct BatchDeleteEventsCommand {
     /// Indices of events to delete (will be sorted and deduplicated)
@@ -36,55 +37,15 @@ impl EditorCommand for BatchDeleteEventsCommand {
         sorted_indices.sort_unstable_by(|a, b| b.cmp(a));
         sorted_indices.dedup();
 
-        let content = document.text().to_string();
+        let content = document.text();
+        let events = document.event_lines()?;
 
-        // Find [Events] section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
-
-        // Find Format line end
-        let format_line_end = content[events_start..]
-            .find("Format:")
-            .and_then(|format_pos| {
-                content[events_start + format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Collect all event positions
-        let mut event_positions = Vec::new();
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end.saturating_sub(1)];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                event_positions.push((current_index, event_start, line_end));
-                current_index += 1;
-            }
-
-            event_start = line_end;
-        }
-
-        // Delete events in reverse order to avoid index shifting
         let mut total_deleted = 0;
         let mut first_delete_pos = Position::new(content.len());
 
         for index in &sorted_indices {
-            if let Some((_, start, end)) = event_positions.iter().find(|(idx, _, _)| idx == index) {
-                let range = Range::new(Position::new(*start), Position::new(*end));
+            if let Some(event) = events.get(*index) {
+                let range = whole_line(&content, event);
                 document.delete(range)?;
                 total_deleted += 1;
 
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 400334a..88c9ce6 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -1,15 +1,13 @@
 //! Command to delete a single event from an ASS document.
 
+use super::helpers::{event_at, whole_line};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-
-#[cfg(not(feature = "std"))]
-use alloc::{format, string::ToString};
+use crate::core::{EditorDocument, Range, Result};
 
 /// Command to delete a single event from the ASS document
 ///
-/// Removes an event (Dialogue or Comment) at the specified index from the `[Events]` section.
-/// The index is 0-based and includes both Dialogue and Comment events.
+/// Removes an event at the specified index from the `[Events]` section.
+/// The index is 0-based and counts events of every kind.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct DeleteEventCommand {
     /// Index of the event to delete
@@ -25,65 +23,13 @@ impl DeleteEventCommand {
 
 impl EditorCommand for DeleteEventCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Events] section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
-
-        // Find Format line end
-        let format_line_end = content[events_start..]
-            .find("Format:")
-            .and_then(|format_pos| {
-                content[events_start + format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut delete_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end.saturating_sub(1)]; // Check without newline
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.event_index {
-                    delete_range = Some(Range::new(
-                        Position::new(event_start),
-                        Position::new(line_end),
-                    ));
-                    break;
-                }
-                current_index += 1;
-            }
-
-            event_start = line_end;
-        }
-
-        if let Some(range) = delete_range {
-            document.delete(range)?;
-            Ok(CommandResult::success_with_change(
-                Range::new(range.start, range.start),
-                range.start,
-            ))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Event index {} not found",
-                self.event_index
-            )))
-        }
+        let event = event_at(document, self.event_index)?;
+        let range = whole_line(&document.text(), &event);
+        document.delete(range)?;
+        Ok(CommandResult::success_with_change(
+            Range::new(range.start, range.start),
+            range.start,
+        ))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index 6fd3fa3..0cecf2c 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -1,10 +1,9 @@
 //! `EditorCommand` implementation for `EventEffectCommand`.
 
 use super::effect::{EffectOperation, EventEffectCommand};
-use super::helpers::parse_event_line;
+use super::helpers::rewrite_events;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use crate::core::{EditorDocument, Position, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -14,128 +13,33 @@ use alloc::{
 
 impl EditorCommand for EventEffectCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_modify =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_modify {
-                    // Parse event line using helper function
-                    if let Ok(event) = parse_event_line(line) {
-                        let new_effect = match self.operation {
-                            EffectOperation::Set => self.effect.clone(),
-                            EffectOperation::Clear => String::new(),
-                            EffectOperation::Append => {
-                                if event.effect.is_empty() {
-                                    self.effect.clone()
-                                } else {
-                                    format!("{} {}", event.effect, self.effect)
-                                }
-                            }
-                            EffectOperation::Prepend => {
-                                if event.effect.is_empty() {
-                                    self.effect.clone()
-                                } else {
-                                    format!("{} {}", self.effect, event.effect)
-                                }
-                            }
-                        };
-
-                        // Build new event line
-                        let event_type_str = match event.event_type {
-                            EventType::Dialogue => "Dialogue",
-                            EventType::Comment => "Comment",
-                            _ => "Dialogue", // Default fallback
-                        };
-                        let new_line = format!(
-                            "{}: {},{},{},{},{},{},{},{},{},{}",
-                            event_type_str,
-                            event.layer,
-                            event.start,
-                            event.end,
-                            event.style,
-                            event.name,
-                            event.margin_l,
-                            event.margin_r,
-                            event.margin_v,
-                            new_effect,
-                            event.text
-                        );
-
-                        let range = Range::new(Position::new(event_start), Position::new(line_end));
-                        document.replace(range, &new_line)?;
-
-                        // Update content for next iteration
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(event_start),
-                            Position::new(event_start + new_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
-
-                        changes_made += 1;
-                    }
+        let rewritten = rewrite_events(document, &self.event_indices, |event| {
+            let old_effect = event.get("Effect");
+            let new_effect = match self.operation {
+                EffectOperation::Set => self.effect.clone(),
+                EffectOperation::Clear => String::new(),
+                EffectOperation::Append | EffectOperation::Prepend if old_effect.is_empty() => {
+                    self.effect.clone()
                 }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
-
-        if changes_made > 0 {
-            let operation_name = match self.operation {
-                EffectOperation::Set => "set",
-                EffectOperation::Clear => "cleared",
-                EffectOperation::Append => "appended",
-                EffectOperation::Prepend => "prepended",
+                EffectOperation::Append => format!("{old_effect} {}", self.effect),
+                EffectOperation::Prepend => format!("{} {old_effect}", self.effect),
             };
-
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!("Effect {operation_name} for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were modified".to_string()))
-        }
+            event.with(&[("Effect", &new_effect)]).map(Some)
+        })?;
+
+        let operation_name = match self.operation {
+            EffectOperation::Set => "set",
+            EffectOperation::Clear => "cleared",
+            EffectOperation::Append => "appended",
+            EffectOperation::Prepend => "prepended",
+        };
+        Ok(match rewritten {
+            Some((count, range)) => {
+                CommandResult::success_with_change(range, Position::new(document.len_bytes()))
+                    .with_message(format!("Effect {operation_name} for {count} events"))
+            }
+            None => CommandResult::success().with_message("No events were modified".to_string()),
+        })
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index fc15202..0bcd177 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -1,99 +1,66 @@
-//! Shared parsing helpers for event management commands.
-//!
-//! Provides robust ASS event line parsing with proper comma handling for the
-//! `Effect` and `Text` fields, used by the sibling command submodules.
+//! Shared helpers of the event commands.
 
-use crate::core::EditorError;
-use ass_core::parser::ast::{Event, EventType, Span};
+use crate::core::document::EventLine;
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
+use alloc::{format, string::String};
 
-/// Helper function to parse an ASS event line with proper comma handling
-/// Returns parsed Event struct or error if parsing fails
-pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, EditorError> {
-    // Extract event type
-    let colon_pos = line
-        .find(':')
-        .ok_or_else(|| EditorError::command_failed("Invalid event format: missing colon"))?;
-    let event_type_str = &line[..colon_pos];
-    let fields_part = line[colon_pos + 1..].trim();
-
-    let event_type = match event_type_str {
-        "Dialogue" => EventType::Dialogue,
-        "Comment" => EventType::Comment,
-        _ => return Err(EditorError::command_failed("Unknown event type")),
-    };
-
-    // Parse fields carefully - Effect field can contain commas, so we need special handling
-    // Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text
-    let parts: Vec<&str> = fields_part.splitn(10, ',').collect();
-    if parts.len() < 10 {
-        return Err(EditorError::command_failed(
-            "Invalid event format: insufficient fields",
-        ));
-    }
-
-    // The issue is that parts[8] (Effect) and parts[9] (Text) might be incorrectly split
-    // if Effect contains commas. We need to rejoin them properly.
-
-    // First 8 fields are safe (no commas expected)
-    let layer = parts[0].trim();
-    let start = parts[1].trim();
-    let end = parts[2].trim();
-    let style = parts[3].trim();
-    let name = parts[4].trim();
-    let margin_l = parts[5].trim();
-    let margin_r = parts[6].trim();
-    let margin_v = parts[7].trim();
-
-    // For Effect and Text, we need to find the correct comma that separates them
-    // Effect can contain commas, but Text is the final field
-
-    // Calculate where effect+text starts in the original string
-    let prefix_len = parts[0..8].iter().map(|s| s.len()).sum::<usize>() + 8; // +8 for commas
-    let remaining = &fields_part[prefix_len..];
-
-    // Find the last comma that's not inside parentheses
-    let mut split_point = None;
-    let chars: Vec<char> = remaining.chars().collect();
-    let mut paren_depth = 0;
+/// The event with the given index
+pub(super) fn event_at(document: &EditorDocument, index: usize) -> Result<EventLine> {
+    document
+        .event_lines()?
+        .into_iter()
+        .nth(index)
+        .ok_or_else(|| EditorError::command_failed(format!("Event index {index} not found")))
+}
 
-    for (i, &ch) in chars.iter().enumerate().rev() {
-        match ch {
-            ')' => paren_depth += 1,
-            '(' => paren_depth -= 1,
-            ',' if paren_depth == 0 => {
-                split_point = Some(i);
-                break;
-            }
-            _ => {}
+/// Rewrite the selected events, all of them for an empty selection
+///
+/// Returns the number of rewritten events and the range they are in.
+pub(super) fn rewrite_events<F>(
+    document: &mut EditorDocument,
+    indices: &[usize],
+    mut rewrite: F,
+) -> Result<Option<(usize, Range)>>
+where
+    F: FnMut(&EventLine) -> Result<Option<String>>,
+{
+    let mut shift = 0isize;
+    let mut rewritten: Option<(usize, Range)> = None;
+    for (index, event) in document.event_lines()?.iter().enumerate() {
+        if !indices.is_empty() && !indices.contains(&index) {
+            continue;
         }
+        let Some(new_line) = rewrite(event)? else {
+            continue;
+        };
+        let start = event.start.saturating_add_signed(shift);
+        let end = event.end.saturating_add_signed(shift);
+        document.replace(
+            Range::new(Position::new(start), Position::new(end)),
+            &new_line,
+        )?;
+        shift += new_line.len() as isize - (end - start) as isize;
+        let range = Range::new(Position::new(start), Position::new(start + new_line.len()));
+        rewritten = Some(match rewritten {
+            Some((count, before)) => (count + 1, before.union(&range)),
+            None => (1, range),
+        });
     }
+    Ok(rewritten)
+}
 
-    let (effect, text) = if let Some(split) = split_point {
-        let effect_part = remaining[..split].trim();
-        let text_part = remaining[split + 1..].trim();
-        (effect_part, text_part)
+/// Range of a line together with its line break
+pub(super) fn whole_line(content: &str, event: &EventLine) -> Range {
+    let start = content[..event.start].rfind('\n').map_or(0, |n| n + 1);
+    let start = if content[start..event.start].trim().is_empty() {
+        start
     } else {
-        // No comma found outside parentheses, treat entire remaining as effect
-        (remaining.trim(), "")
+        event.start
     };
-
-    Ok(Event {
-        event_type,
-        layer,
-        start,
-        end,
-        style,
-        name,
-        margin_l,
-        margin_r,
-        margin_v,
-        margin_t: None,
-        margin_b: None,
-        effect,
-        text,
-        span: Span::new(0, line.len(), 1, 1), // Dummy span
-    })
+    let end = content[event.end..]
+        .find('\n')
+        .map_or(content.len(), |n| event.end + n + 1);
+    Range::new(Position::new(start), Position::new(end))
 }
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 07d6000..df4bec0 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -1,15 +1,13 @@
 //! Command to merge two consecutive events into one.
 
-use super::helpers::parse_event_line;
+use super::helpers::{event_at, whole_line};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 
 /// Command to merge two consecutive events
@@ -54,104 +52,28 @@ impl EditorCommand for MergeEventsCommand {
             ));
         }
 
-        let content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
+        let first = event_at(document, self.first_event_index)?;
+        let second = event_at(document, self.second_event_index)?;
 
-        // Skip to first event after format line
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Find both events
-        let mut events = Vec::new();
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.first_event_index
-                    || current_index == self.second_event_index
-                {
-                    events.push((current_index, event_start, line_end, line.to_string()));
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
-
-        if events.len() != 2 {
-            return Err(EditorError::command_failed(
-                "Could not find both events to merge",
-            ));
-        }
-
-        // Parse both events using ass-core's parser
-        let first_event_line = &events[0].3;
-        let second_event_line = &events[1].3;
-
-        let first_event = parse_event_line(first_event_line)?;
-        let second_event = parse_event_line(second_event_line)?;
-
-        // Use first event's properties, second event's end time, merged text
         let merged_text = format!(
             "{}{}{}",
-            first_event.text, self.merge_text_separator, second_event.text
-        );
-
-        // Create merged event
-        let event_type_str = match first_event.event_type {
-            EventType::Dialogue => "Dialogue",
-            EventType::Comment => "Comment",
-            _ => "Dialogue", // Default fallback
-        };
-        let merged_event = format!(
-            "{}: {},{},{},{},{},{},{},{},{},{}",
-            event_type_str,
-            first_event.layer,
-            first_event.start,
-            second_event.end,
-            first_event.style,
-            first_event.name,
-            first_event.margin_l,
-            first_event.margin_r,
-            first_event.margin_v,
-            first_event.effect,
-            merged_text
+            first.get("Text"),
+            self.merge_text_separator,
+            second.get("Text")
         );
+        let merged_event = first.with(&[("End", second.get("End")), ("Text", &merged_text)])?;
 
-        // Replace both events with the merged one
-        let first_start = events[0].1;
-        let second_end = events[1].2 + 1; // Include newline
-        let range = Range::new(Position::new(first_start), Position::new(second_end));
-        let replacement = format!("{merged_event}\n");
-
-        document.replace(range, &replacement)?;
+        // The second line goes, lines between the two stay
+        let second_line = whole_line(&document.text(), &second);
+        document.delete(second_line)?;
+        document.replace(
+            Range::new(Position::new(first.start), Position::new(first.end)),
+            &merged_event,
+        )?;
 
-        let end_pos = Position::new(first_start + replacement.len());
+        let end_pos = Position::new(first.start + merged_event.len());
         Ok(CommandResult::success_with_change(
-            Range::new(Position::new(first_start), end_pos),
+            Range::new(Position::new(first.start), end_pos),
             end_pos,
         )
         .with_message(format!(
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 3008e27..0078c91 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -1,9 +1,8 @@
 //! Command to split a single event into two at a specific time.
 
-use super::helpers::parse_event_line;
+use super::helpers::event_at;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
@@ -43,121 +42,33 @@ impl EditorCommand for SplitEventCommand {
         })?;
 
         // Find the event to split
-        let content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip to first event after format line
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Find the event at the specified index
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.event_index {
-                    // Found the event to split - parse using ass-core's parser
-                    let event = parse_event_line(line)?;
-
-                    // Validate split time is within event bounds
-                    let start_time_cs = event
-                        .start_time_cs()
-                        .map_err(|_| EditorError::command_failed("Invalid start time in event"))?;
-                    let end_time_cs = event
-                        .end_time_cs()
-                        .map_err(|_| EditorError::command_failed("Invalid end time in event"))?;
-
-                    if split_time_cs <= start_time_cs || split_time_cs >= end_time_cs {
-                        return Err(EditorError::command_failed(
-                            "Split time must be between event start and end times",
-                        ));
-                    }
-
-                    // Create two new events
-                    let event_type_str = match event.event_type {
-                        EventType::Dialogue => "Dialogue",
-                        EventType::Comment => "Comment",
-                        _ => "Dialogue", // Default fallback
-                    };
-                    let first_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        event.start,
-                        self.split_time,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
-                    );
-
-                    let second_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        self.split_time,
-                        event.end,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
-                    );
-
-                    // Replace the original event with the two new events
-                    let replacement = format!("{first_event}\n{second_event}");
-                    let range = Range::new(Position::new(event_start), Position::new(line_end));
-                    document.replace(range, &replacement)?;
-
-                    let end_pos = Position::new(event_start + replacement.len());
-                    return Ok(CommandResult::success_with_change(
-                        Range::new(Position::new(event_start), end_pos),
-                        end_pos,
-                    )
-                    .with_message(format!(
-                        "Split event {} at time {}",
-                        self.event_index, self.split_time
-                    )));
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                // Stop at next section
-                break;
-            }
-
-            event_start = line_end + 1;
+        let event = event_at(document, self.event_index)?;
+        let start_time_cs = parse_ass_time(event.get("Start"))
+            .map_err(|_| EditorError::command_failed("Invalid start time in event"))?;
+        let end_time_cs = parse_ass_time(event.get("End"))
+            .map_err(|_| EditorError::command_failed("Invalid end time in event"))?;
+
+        // Validate split time is within event bounds
+        if split_time_cs <= start_time_cs || split_time_cs >= end_time_cs {
+            return Err(EditorError::command_failed(
+                "Split time must be between event start and end times",
+            ));
         }
 
-        Err(EditorError::command_failed(format!(
-            "Event index {} not found",
-            self.event_index
+        let first_event = event.with(&[("End", &self.split_time)])?;
+        let second_event = event.with(&[("Start", &self.split_time)])?;
+        let replacement = format!("{first_event}\n{second_event}");
+        let range = Range::new(Position::new(event.start), Position::new(event.end));
+        document.replace(range, &replacement)?;
+
+        let end_pos = Position::new(event.start + replacement.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(event.start), end_pos),
+            end_pos,
+        )
+        .with_message(format!(
+            "Split event {} at time {}",
+            self.event_index, self.split_time
         )))
     }
 
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index d2b4fd4..d60aa2f 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -1,10 +1,9 @@
 //! Command to adjust event timing by shifting start/end times.
 
-use super::helpers::parse_event_line;
+use super::helpers::rewrite_events;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
-use ass_core::utils::format_ass_time;
+use crate::core::{EditorDocument, Position, Result};
+use ass_core::utils::{format_ass_time, parse_ass_time};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -19,6 +18,7 @@ pub struct TimingAdjustCommand {
     pub event_indices: Vec<usize>, // Events to adjust (empty = all events)
     pub start_offset_cs: i32,      // Offset in centiseconds for start time
     pub end_offset_cs: i32,        // Offset in centiseconds for end time
+    pub duration_factor: Option<f64>, // Factor the duration is multiplied by
     pub description: Option<String>,
 }
 
@@ -29,6 +29,7 @@ impl TimingAdjustCommand {
             event_indices,
             start_offset_cs,
             end_offset_cs,
+            duration_factor: None,
             description: None,
         }
     }
@@ -39,6 +40,7 @@ impl TimingAdjustCommand {
             event_indices: Vec::new(), // Empty means all events
             start_offset_cs,
             end_offset_cs,
+            duration_factor: None,
             description: None,
         }
     }
@@ -55,9 +57,10 @@ impl TimingAdjustCommand {
 
     /// Scale duration (multiply by factor)
     pub fn scale_duration(event_indices: Vec<usize>, factor: f64) -> Self {
-        // This is a simplified version - actual implementation would need to calculate per-event
-        let offset = (factor * 100.0) as i32 - 100; // Convert factor to centisecond offset
-        Self::new(event_indices, 0, offset)
+        Self {
+            duration_factor: Some(factor),
+            ..Self::new(event_indices, 0, 0)
+        }
     }
 
     /// Set a custom description for this command
@@ -70,120 +73,43 @@ impl TimingAdjustCommand {
 
 impl EditorCommand for TimingAdjustCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_adjust =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_adjust {
-                    // Parse event line using ass-core's parser
-                    if let Ok(event) = parse_event_line(line) {
-                        // Parse current times using Event methods
-                        if let (Ok(start_cs), Ok(end_cs)) =
-                            (event.start_time_cs(), event.end_time_cs())
-                        {
-                            // Apply offsets
-                            let new_start_cs =
-                                (start_cs as i32 + self.start_offset_cs).max(0) as u32;
-                            let new_end_cs = (end_cs as i32 + self.end_offset_cs).max(0) as u32;
-
-                            // Ensure end time is after start time
-                            let final_end_cs = new_end_cs.max(new_start_cs + 1);
-
-                            let new_start_time = format_ass_time(new_start_cs);
-                            let new_end_time = format_ass_time(final_end_cs);
-
-                            // Build new event line
-                            let event_type_str = match event.event_type {
-                                EventType::Dialogue => "Dialogue",
-                                EventType::Comment => "Comment",
-                                _ => "Dialogue", // Default fallback
-                            };
-                            let new_line = format!(
-                                "{}: {},{},{},{},{},{},{},{},{},{}",
-                                event_type_str,
-                                event.layer,
-                                new_start_time,
-                                new_end_time,
-                                event.style,
-                                event.name,
-                                event.margin_l,
-                                event.margin_r,
-                                event.margin_v,
-                                event.effect,
-                                event.text
-                            );
-
-                            // Replace the line
-                            let range =
-                                Range::new(Position::new(event_start), Position::new(line_end));
-                            document.replace(range, &new_line)?;
-
-                            // Update content for next iteration
-                            content = document.text();
-
-                            // Track overall range
-                            let change_range = Range::new(
-                                Position::new(event_start),
-                                Position::new(event_start + new_line.len()),
-                            );
-                            total_range = Some(match total_range {
-                                Some(existing) => existing.union(&change_range),
-                                None => change_range,
-                            });
-
-                            changes_made += 1;
-                        }
-                    }
+        let shifted = |cs: u32, offset: i32| {
+            let time = (i64::from(cs) + i64::from(offset)).clamp(0, i64::from(u32::MAX - 1));
+            u32::try_from(time).unwrap_or(u32::MAX - 1)
+        };
+        let rewritten = rewrite_events(document, &self.event_indices, |event| {
+            let (Ok(start_cs), Ok(end_cs)) = (
+                parse_ass_time(event.get("Start")),
+                parse_ass_time(event.get("End")),
+            ) else {
+                return Ok(None);
+            };
+            let end_cs = match self.duration_factor {
+                Some(factor) => {
+                    let duration = f64::from(end_cs.saturating_sub(start_cs)) * factor;
+                    start_cs.saturating_add((duration + 0.5) as u32)
                 }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
+                None => end_cs,
+            };
+
+            // The end is at least 1 cs after the start
+            let new_start_cs = shifted(start_cs, self.start_offset_cs);
+            let new_end_cs = shifted(end_cs, self.end_offset_cs).max(new_start_cs + 1);
+            event
+                .with(&[
+                    ("Start", &format_ass_time(new_start_cs)),
+                    ("End", &format_ass_time(new_end_cs)),
+                ])
+                .map(Some)
+        })?;
+
+        Ok(match rewritten {
+            Some((count, range)) => {
+                CommandResult::success_with_change(range, Position::new(document.len_bytes()))
+                    .with_message(format!("Adjusted timing for {count} events"))
             }
-
-            event_start = line_end + 1;
-        }
-
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!("Adjusted timing for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were adjusted".to_string()))
-        }
+            None => CommandResult::success().with_message("No events were adjusted".to_string()),
+        })
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/toggle.rs b/crates/ass-editor/commands/event_commands/toggle.rs
index 138b726..9f75739 100644
--- a/crates/ass-editor/commands/event_commands/toggle.rs
+++ b/crates/ass-editor/commands/event_commands/toggle.rs
@@ -1,7 +1,9 @@
 //! Command to toggle event type between Dialogue and Comment.
 
+use super::helpers::rewrite_events;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Position, Result};
+use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -47,84 +49,21 @@ impl ToggleEventTypeCommand {
 
 impl EditorCommand for ToggleEventTypeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
+        let rewritten = rewrite_events(document, &self.event_indices, |event| {
+            Ok(match event.event_type {
+                EventType::Dialogue => Some(event.retyped(EventType::Comment)),
+                EventType::Comment => Some(event.retyped(EventType::Dialogue)),
+                _ => None,
             })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
+        })?;
 
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
+        Ok(match rewritten {
+            Some((count, range)) => {
+                CommandResult::success_with_change(range, Position::new(document.len_bytes()))
+                    .with_message(format!("Toggled type for {count} events"))
             }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_toggle =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_toggle {
-                    let new_line = if line.starts_with("Dialogue:") {
-                        line.replacen("Dialogue:", "Comment:", 1)
-                    } else {
-                        line.replacen("Comment:", "Dialogue:", 1)
-                    };
-
-                    let range = Range::new(Position::new(event_start), Position::new(line_end));
-                    document.replace(range, &new_line)?;
-
-                    // Update content for next iteration
-                    content = document.text();
-
-                    // Track overall range
-                    let change_range = Range::new(
-                        Position::new(event_start),
-                        Position::new(event_start + new_line.len()),
-                    );
-                    total_range = Some(match total_range {
-                        Some(existing) => existing.union(&change_range),
-                        None => change_range,
-                    });
-
-                    changes_made += 1;
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
-
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!("Toggled type for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were toggled".to_string()))
-        }
+            None => CommandResult::success().with_message("No events were toggled".to_string()),
+        })
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/core/builders/event.rs b/crates/ass-editor/core/builders/event.rs
index a1dad4f..4c7bf37 100644
--- a/crates/ass-editor/core/builders/event.rs
+++ b/crates/ass-editor/core/builders/event.rs
@@ -57,6 +57,14 @@ impl<'a> EventBuilder<'a> {
         Self::default()
     }
 
+    /// Create a builder for an event of the given type
+    pub(crate) fn of_type(event_type: EventType) -> Self {
+        Self {
+            event_type: Some(event_type),
+            ..Self::default()
+        }
+    }
+
     /// Create a dialogue event builder
     pub fn dialogue() -> Self {
         Self {
diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index 379006b..be86ff8 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -10,11 +10,7 @@ use crate::core::position::{Position, Range};
 use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::string::String;
 
 impl EditorDocument {
     /// Edit event using a builder for structured modifications
@@ -56,118 +52,52 @@ impl EditorDocument {
     {
         use crate::core::builders::EventBuilder;
 
-        let content = self.text();
-        let mut event_info = None;
-        let mut event_count = 0;
-        let mut format_line = None;
+        let lines = self.event_lines().unwrap_or_default();
+        let line = lines.get(index).ok_or(EditorError::InvalidRange {
+            start: index,
+            end: index + 1,
+            length: lines.len(),
+        })?;
 
-        // Find the event and extract format line
-        self.parse_script_with(|script| -> Result<()> {
-            for section in script.sections() {
-                if let Section::Events(events) = section {
-                    // Get format line if available
-                    if format_line.is_none() {
-                        // Find Events section header and format line in raw text
-                        if let Some(events_pos) = content.find("[Events]") {
-                            let after_header = &content[events_pos + 8..];
-                            if let Some(format_pos) = after_header.find("Format:") {
-                                let format_start = events_pos + 8 + format_pos + 7; // Skip "Format:"
-                                if let Some(format_end) = content[format_start..].find('\n') {
-                                    let format_str =
-                                        content[format_start..format_start + format_end].trim();
-                                    let fields: Vec<&str> =
-                                        format_str.split(',').map(str::trim).collect();
-                                    format_line = Some(fields);
-                                }
-                            }
-                        }
-                    }
+        let new_line = self.parse_script_with(|script| -> Result<String> {
+            let mut events = script.sections().iter().flat_map(|section| match section {
+                Section::Events(events) => events.as_slice(),
+                _ => &[],
+            });
+            let event = events
+                .nth(index)
+                .ok_or_else(|| EditorError::command_failed("Event not found"))?;
 
-                    for event in events {
-                        if event_count == index {
-                            // Create a builder pre-populated with current values
-                            let mut builder = match event.event_type {
-                                ass_core::parser::ast::EventType::Dialogue => {
-                                    EventBuilder::dialogue()
-                                }
-                                ass_core::parser::ast::EventType::Comment => {
-                                    EventBuilder::comment()
-                                }
-                                _ => EventBuilder::new(),
-                            };
+            // Create a builder pre-populated with current values
+            let mut builder = EventBuilder::of_type(event.event_type)
+                .layer(event.layer.parse::<u32>().unwrap_or(0))
+                .start_time(event.start)
+                .end_time(event.end)
+                .style(event.style)
+                .speaker(event.name)
+                .margin_left(event.margin_l.parse::<u32>().unwrap_or(0))
+                .margin_right(event.margin_r.parse::<u32>().unwrap_or(0))
+                .margin_vertical(event.margin_v.parse::<u32>().unwrap_or(0))
+                .effect(event.effect)
+                .text(event.text);
 
-                            // Pre-populate builder with current event values
-                            builder = builder
-                                .layer(event.layer.parse::<u32>().unwrap_or(0))
-                                .start_time(event.start)
-                                .end_time(event.end)
-                                .style(event.style)
-                                .speaker(event.name)
-                                .margin_left(event.margin_l.parse::<u32>().unwrap_or(0))
-                                .margin_right(event.margin_r.parse::<u32>().unwrap_or(0))
-                                .margin_vertical(event.margin_v.parse::<u32>().unwrap_or(0))
-                                .effect(event.effect)
-                                .text(event.text);
-
-                            if let Some(margin_t) = event.margin_t {
-                                builder = builder.margin_top(margin_t.parse::<u32>().unwrap_or(0));
-                            }
-                            if let Some(margin_b) = event.margin_b {
-                                builder =
-                                    builder.margin_bottom(margin_b.parse::<u32>().unwrap_or(0));
-                            }
-
-                            // Apply user modifications
-                            let modified_builder = builder_fn(builder);
-
-                            // Build the new event line
-                            let new_line = if let Some(ref format_fields) = format_line {
-                                modified_builder.build_with_format(format_fields)?
-                            } else {
-                                modified_builder.build()?
-                            };
-
-                            // Find the event line in the raw text
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                (pos, line_end)
-                            } else {
-                                return Err(EditorError::ValidationError {
-                                    message: "Could not find event line in document".to_string(),
-                                });
-                            };
+            if let Some(margin_t) = event.margin_t {
+                builder = builder.margin_top(margin_t.parse::<u32>().unwrap_or(0));
+            }
+            if let Some(margin_b) = event.margin_b {
+                builder = builder.margin_bottom(margin_b.parse::<u32>().unwrap_or(0));
+            }
 
-                            event_info = Some((event_line, new_line));
-                            return Ok(());
-                        }
-                        event_count += 1;
-                    }
-                }
+            // Apply user modifications and write the columns the script has
+            let modified_builder = builder_fn(builder);
+            match script.events_format() {
+                Some(format) => modified_builder.build_with_format(format),
+                None => modified_builder.build(),
             }
-            Ok(())
         })??;
 
-        if let Some(((line_start, line_end), new_line)) = event_info {
-            // Replace the line in the document
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            self.replace(range, &new_line)?;
-
-            Ok(new_line)
-        } else {
-            Err(EditorError::InvalidRange {
-                start: index,
-                end: index + 1,
-                length: event_count,
-            })
-        }
+        let range = Range::new(Position::new(line.start), Position::new(line.end));
+        self.replace(range, &new_line)?;
+        Ok(new_line)
     }
 }
diff --git a/crates/ass-editor/core/document/event_edit.rs b/crates/ass-editor/core/document/event_edit.rs
index ea72773..d4acc7d 100644
--- a/crates/ass-editor/core/document/event_edit.rs
+++ b/crates/ass-editor/core/document/event_edit.rs
@@ -1,8 +1,7 @@
 //! Index-based structured event editing
 //!
 //! Implements `edit_event_by_index`, which locates an event in the raw text,
-//! applies field-level modifications, and rewrites the dialogue/comment line
-//! via the `build_modified_event_line_from_data` helper.
+//! applies field-level modifications, and rewrites those columns of its line.
 
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
@@ -10,11 +9,7 @@ use crate::core::position::{Position, Range};
 use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{format, string::String, vec::Vec};
 
 impl EditorDocument {
     /// Edit event by index with full field support
@@ -50,83 +45,46 @@ impl EditorDocument {
     where
         F: for<'a> FnOnce(&ass_core::parser::ast::Event<'a>) -> Vec<(&'static str, String)>,
     {
-        let content = self.text();
-        let mut event_info = None;
-        let mut event_count = 0;
+        let lines = self.event_lines().unwrap_or_default();
+        let line = lines.get(index).ok_or(EditorError::InvalidRange {
+            start: index,
+            end: index + 1,
+            length: lines.len(),
+        })?;
+        let modifications = self
+            .parse_script_with(|script| {
+                let mut events = script.sections().iter().flat_map(|section| match section {
+                    Section::Events(events) => events.as_slice(),
+                    _ => &[],
+                });
+                events.nth(index).map(update_fn)
+            })?
+            .unwrap_or_default();
 
-        // Find the event and its location in the document
-        self.parse_script_with(|script| -> Result<()> {
-            for section in script.sections() {
-                if let Section::Events(events) = section {
-                    for event in events {
-                        if event_count == index {
-                            // Get the modifications from the update function
-                            let modifications = update_fn(event);
-
-                            // Build a pattern to search for this specific event
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                let line = content[pos..line_end].to_string();
-                                (pos, line_end, line)
-                            } else {
-                                return Err(EditorError::ValidationError {
-                                    message: "Could not find event line in document".to_string(),
-                                });
-                            };
-
-                            // Store the event data we need instead of cloning
-                            let event_data = (
-                                event.event_type,
-                                event.layer.to_string(),
-                                event.start.to_string(),
-                                event.end.to_string(),
-                                event.style.to_string(),
-                                event.name.to_string(),
-                                event.margin_l.to_string(),
-                                event.margin_r.to_string(),
-                                event.margin_v.to_string(),
-                                event.effect.to_string(),
-                                event.text.to_string(),
-                            );
-                            event_info = Some((event_data, event_line, modifications));
-                            return Ok(());
-                        }
-                        event_count += 1;
-                    }
+        let mut changes = Vec::with_capacity(modifications.len());
+        for (field, value) in &modifications {
+            let column = match *field {
+                "layer" => "Layer",
+                "start" => "Start",
+                "end" => "End",
+                "style" => "Style",
+                "name" => "Name",
+                "margin_l" => "MarginL",
+                "margin_r" => "MarginR",
+                "margin_v" => "MarginV",
+                "effect" => "Effect",
+                "text" => "Text",
+                _ => {
+                    return Err(EditorError::ValidationError {
+                        message: format!("Unknown event field: {field}"),
+                    });
                 }
-            }
-            Ok(())
-        })??;
-
-        if let Some((event_data, (line_start, line_end, original_line), modifications)) = event_info
-        {
-            // Build the new event line with modifications
-            let new_line = self.build_modified_event_line_from_data(
-                event_data,
-                &original_line,
-                modifications,
-            )?;
-
-            // Replace the line in the document
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            self.replace(range, &new_line)?;
-
-            Ok(new_line)
-        } else {
-            Err(EditorError::InvalidRange {
-                start: index,
-                end: index + 1,
-                length: event_count,
-            })
+            };
+            changes.push((column, value.as_str()));
         }
+        let new_line = line.with(&changes)?;
+        let range = Range::new(Position::new(line.start), Position::new(line.end));
+        self.replace(range, &new_line)?;
+        Ok(new_line)
     }
 }
diff --git a/crates/ass-editor/core/document/event_line.rs b/crates/ass-editor/core/document/event_line.rs
deleted file mode 100644
index 93bdb05..0000000
--- a/crates/ass-editor/core/document/event_line.rs
+++ /dev/null
@@ -1,83 +0,0 @@
-//! Event line reconstruction helper
-//!
-//! Rebuilds a dialogue/comment line from extracted field data after applying
-//! a set of field modifications. Exposed as `pub(super)` for the
-//! index-based event editor.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-
-#[cfg(not(feature = "std"))]
-use alloc::{format, string::String, vec::Vec};
-
-impl EditorDocument {
-    /// Helper to build a modified event line from event data
-    pub(super) fn build_modified_event_line_from_data(
-        &self,
-        event_data: (
-            ass_core::parser::ast::EventType,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-        ),
-        _original_line: &str,
-        modifications: Vec<(&'static str, String)>,
-    ) -> Result<String> {
-        let (
-            event_type,
-            layer,
-            start,
-            end,
-            style,
-            name,
-            margin_l,
-            margin_r,
-            margin_v,
-            effect,
-            text,
-        ) = event_data;
-
-        // Apply modifications
-        let mut layer = layer;
-        let mut start = start;
-        let mut end = end;
-        let mut style = style;
-        let mut name = name;
-        let mut margin_l = margin_l;
-        let mut margin_r = margin_r;
-        let mut margin_v = margin_v;
-        let mut effect = effect;
-        let mut text = text;
-
-        for (field, value) in modifications {
-            match field {
-                "layer" => layer = value,
-                "start" => start = value,
-                "end" => end = value,
-                "style" => style = value,
-                "name" => name = value,
-                "margin_l" => margin_l = value,
-                "margin_r" => margin_r = value,
-                "margin_v" => margin_v = value,
-                "effect" => effect = value,
-                "text" => text = value,
-                _ => {
-                    return Err(EditorError::ValidationError {
-                        message: format!("Unknown event field: {field}"),
-                    });
-                }
-            }
-        }
-
-        // Rebuild the line
-        let event_type_str = event_type.as_str();
-        Ok(format!("{event_type_str}: {layer},{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"))
-    }
-}
diff --git a/crates/ass-editor/core/document/event_lines.rs b/crates/ass-editor/core/document/event_lines.rs
new file mode 100644
index 0000000..0edaa27
--- /dev/null
+++ b/crates/ass-editor/core/document/event_lines.rs
@@ -0,0 +1,168 @@
+//! Event lines of the document as the parser reads them
+//!
+//! Gives every event its place in the text and its columns under the names of
+//! the format line, so that one column can be changed and the rest of the line
+//! stays as it is written.
+
+use super::EditorDocument;
+use crate::core::errors::{EditorError, Result};
+use ass_core::parser::ast::{EventType, Section};
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Columns of an events section without a format line
+const DEFAULT_COLUMNS: [&str; 10] = [
+    "Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text",
+];
+
+/// One event line of the document
+#[derive(Debug, Clone)]
+pub(crate) struct EventLine {
+    /// Offset of the first character of the line
+    pub start: usize,
+    /// Offset after the last character of the line, without the line break
+    pub end: usize,
+    /// Kind of event
+    pub event_type: EventType,
+    head: String,
+    columns: Vec<String>,
+    values: Vec<String>,
+}
+
+impl EventLine {
+    /// The value written under a column, empty if there is no such column
+    pub fn get(&self, column: &str) -> &str {
+        self.index_of(column)
+            .map_or("", |index| self.values[index].trim())
+    }
+
+    /// The whole line with the values of some columns changed
+    pub fn with(&self, changes: &[(&str, &str)]) -> Result<String> {
+        let mut values = self.values.clone();
+        for (column, value) in changes {
+            let index = self.index_of(column).ok_or_else(|| {
+                EditorError::command_failed(format!("Events have no {column} column"))
+            })?;
+            values[index] = (*value).to_string();
+        }
+        let data = values.join(",");
+        let read_back = split_columns(&self.columns, &data);
+        let fits = !data.contains(['\n', '\r'])
+            && read_back.len() == values.len()
+            && read_back
+                .iter()
+                .zip(&values)
+                .all(|(a, b)| a.trim() == b.trim());
+        if !fits {
+            return Err(EditorError::command_failed(
+                "Value does not fit in its column",
+            ));
+        }
+        Ok(format!("{}{data}", self.head))
+    }
+
+    /// The whole line as an event of another kind
+    pub fn retyped(&self, event_type: EventType) -> String {
+        let head = self
+            .head
+            .replacen(self.event_type.as_str(), event_type.as_str(), 1);
+        format!("{head}{}", self.values.join(","))
+    }
+
+    fn index_of(&self, column: &str) -> Option<usize> {
+        self.columns
+            .iter()
+            .position(|name| name.eq_ignore_ascii_case(column))
+            .filter(|&index| index < self.values.len())
+    }
+}
+
+/// Split the data of an event into its columns
+///
+/// An effect may contain commas inside parentheses.
+fn split_columns<'a>(columns: &[String], data: &'a str) -> Vec<&'a str> {
+    let count = if columns.iter().any(|c| c.eq_ignore_ascii_case("Text")) {
+        columns.len()
+    } else {
+        DEFAULT_COLUMNS.len()
+    };
+    let mut values = Vec::with_capacity(count);
+    let mut rest = data;
+    while values.len() + 1 < count {
+        let Some(mut end) = rest.find(',') else { break };
+        let is_effect = columns
+            .get(values.len())
+            .is_some_and(|c| c.eq_ignore_ascii_case("Effect"));
+        if is_effect {
+            end = end_of_effect(rest, count - values.len() - 1).unwrap_or(end);
+        }
+        values.push(&rest[..end]);
+        rest = &rest[end + 1..];
+    }
+    values.push(rest);
+    values
+}
+
+/// Offset of the first comma outside parentheses that leaves enough columns
+fn end_of_effect(rest: &str, columns_left: usize) -> Option<usize> {
+    let mut depth = 0usize;
+    let end = rest.char_indices().find_map(|(index, ch)| {
+        match ch {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            ',' if depth == 0 => return Some(index),
+            _ => {}
+        }
+        None
+    })?;
+    (rest[end..].matches(',').count() >= columns_left).then_some(end)
+}
+
+impl EditorDocument {
+    /// All events of the document in order, or an error without an events section
+    pub(crate) fn event_lines(&self) -> Result<Vec<EventLine>> {
+        self.parse_script_with(|script| {
+            let columns: Vec<String> = script
+                .events_format()
+                .unwrap_or(&DEFAULT_COLUMNS)
+                .iter()
+                .map(ToString::to_string)
+                .collect();
+            let mut found = false;
+            let mut lines = Vec::new();
+            for section in script.sections() {
+                let Section::Events(events) = section else {
+                    continue;
+                };
+                found = true;
+                for event in events {
+                    let start = event.span.start;
+                    let line = script.source()[start..event.span.end].trim_end();
+                    let after_type = line.find(':').map_or(0, |colon| colon + 1);
+                    let data = line[after_type..].trim_start();
+                    lines.push(EventLine {
+                        start,
+                        end: start + line.len(),
+                        event_type: event.event_type,
+                        head: line[..line.len() - data.len()].to_string(),
+                        values: split_columns(&columns, data)
+                            .into_iter()
+                            .map(ToString::to_string)
+                            .collect(),
+                        columns: columns.clone(),
+                    });
+                }
+            }
+            if found {
+                Ok(lines)
+            } else {
+                Err(EditorError::command_failed("Events section not found"))
+            }
+        })?
+    }
+}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index 0ef38e3..b3d2c6f 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -9,7 +9,7 @@ mod constructors;
 mod editing;
 mod editing_raw;
 mod event_edit;
-mod event_line;
+mod event_lines;
 mod grouped_edit;
 mod incremental_parse;
 mod metadata;
@@ -46,6 +46,7 @@ mod validator_tests;
 #[cfg(all(test, feature = "plugins"))]
 mod plugin_tests;
 
+pub(crate) use event_lines::EventLine;
 pub use position_api::DocumentPosition;
 pub use types::EditorDocument;
 
-- 
2.43.0


From a6cd79d54f82e3708f5447bc0e4acdef8b61efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:31 +0000
Subject: [PATCH 41/94] fix: event queries report places, match patterns and
 read times

---
 crates/ass-editor/core/fluent/event_ops.rs    | 34 ++---------
 .../core/fluent/event_query_exec.rs           | 24 +-------
 .../core/fluent/event_query_filter.rs         | 58 +++++--------------
 crates/ass-editor/core/fluent/query_types.rs  | 18 +++++-
 4 files changed, 40 insertions(+), 94 deletions(-)

diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index 69eefa4..9ace1bd 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -3,12 +3,10 @@
 use super::event_deleter::EventDeleter;
 use super::event_merge_timing::{EventMerger, EventTimer};
 use super::event_toggle_effect::{EventEffector, EventToggler};
-use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
-use crate::commands::{
-    BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand,
-};
-use crate::core::{EditorDocument, Position, Range, Result};
-use ass_core::parser::ast::{Event, EventType, Section};
+use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria};
+use crate::commands::{BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand};
+use crate::core::{EditorDocument, Result};
+use ass_core::parser::ast::{EventType, Section};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::ToString, vec::Vec};
@@ -65,13 +63,7 @@ impl<'a> EventOps<'a> {
                     if let Section::Events(events) = section {
                         for event in events {
                             if current_index == index {
-                                let event_info = EventInfo {
-                                    index,
-                                    event: OwnedEvent::from(event),
-                                    line_number: self.find_line_number_for_event(event)?,
-                                    range: self.find_range_for_event(event)?,
-                                };
-                                return Ok(Some(event_info));
+                                return Ok(Some(EventInfo::new(index, event, script.source())));
                             }
                             current_index += 1;
                         }
@@ -166,20 +158,4 @@ impl<'a> EventOps<'a> {
     pub fn delete_query(self) -> EventDeleter<'a> {
         EventDeleter::new(self.document)
     }
-
-    // ============================================================================
-    // Helper Methods
-    // ============================================================================
-
-    fn find_line_number_for_event(&self, _event: &Event) -> Result<usize> {
-        // For now, return a placeholder. This would need to be implemented
-        // by tracking line numbers during parsing or using rope byte-to-line conversion
-        Ok(1)
-    }
-
-    fn find_range_for_event(&self, _event: &Event) -> Result<Range> {
-        // For now, return a placeholder range. This would need to be implemented
-        // by using the event's span information from the parser
-        Ok(Range::new(Position::new(0), Position::new(0)))
-    }
 }
diff --git a/crates/ass-editor/core/fluent/event_query_exec.rs b/crates/ass-editor/core/fluent/event_query_exec.rs
index 810a8f4..99d190d 100644
--- a/crates/ass-editor/core/fluent/event_query_exec.rs
+++ b/crates/ass-editor/core/fluent/event_query_exec.rs
@@ -4,8 +4,8 @@ use super::event_merge_timing::EventTimer;
 use super::event_toggle_effect::{EventEffector, EventToggler};
 use super::{EventInfo, EventQuery, EventSortOptions, OwnedEvent};
 use crate::core::errors::EditorError;
-use crate::core::{Position, Range, Result};
-use ass_core::parser::ast::{Event, Section};
+use crate::core::Result;
+use ass_core::parser::ast::Section;
 use core::cmp::Ordering;
 
 #[cfg(not(feature = "std"))]
@@ -95,13 +95,7 @@ impl<'a> EventQuery<'a> {
                     if let Section::Events(section_events) = section {
                         for event in section_events {
                             // Build EventInfo with position tracking
-                            let event_info = EventInfo {
-                                index: event_index,
-                                event: OwnedEvent::from(event),
-                                line_number: self.find_line_number(event)?,
-                                range: self.find_event_range(event)?,
-                            };
-                            events.push(event_info);
+                            events.push(EventInfo::new(event_index, event, script.source()));
                             event_index += 1;
                         }
                     }
@@ -150,16 +144,4 @@ impl<'a> EventQuery<'a> {
             }
         });
     }
-
-    fn find_line_number(&self, _event: &Event) -> Result<usize> {
-        // For now, return a placeholder. This would need to be implemented
-        // by tracking line numbers during parsing or using rope byte-to-line conversion
-        Ok(1)
-    }
-
-    fn find_event_range(&self, _event: &Event) -> Result<Range> {
-        // For now, return a placeholder range. This would need to be implemented
-        // by using the event's span information from the parser
-        Ok(Range::new(Position::new(0), Position::new(0)))
-    }
 }
diff --git a/crates/ass-editor/core/fluent/event_query_filter.rs b/crates/ass-editor/core/fluent/event_query_filter.rs
index f0bf6f1..1f55323 100644
--- a/crates/ass-editor/core/fluent/event_query_filter.rs
+++ b/crates/ass-editor/core/fluent/event_query_filter.rs
@@ -7,11 +7,9 @@
 use super::{EventInfo, EventQuery, EventSortCriteria};
 use crate::core::errors::EditorError;
 use crate::core::Result;
+use ass_core::utils::parse_ass_time;
 use core::cmp::Ordering;
 
-#[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
-
 impl EventQuery<'_> {
     pub(super) fn matches_filter(&self, event_info: &EventInfo) -> Result<bool> {
         // Apply each filter criteria
@@ -74,51 +72,25 @@ impl EventQuery<'_> {
     }
 
     fn matches_pattern(&self, text: &str, pattern: &str) -> Result<bool> {
+        #[cfg(feature = "formats")]
         if self.filters.use_regex {
-            // For now, just do simple string matching
-            // In a full implementation, you'd use regex crate
-            Ok(if self.filters.case_sensitive {
-                text.contains(pattern)
-            } else {
-                text.to_lowercase().contains(&pattern.to_lowercase())
-            })
-        } else {
-            Ok(if self.filters.case_sensitive {
-                text.contains(pattern)
-            } else {
-                text.to_lowercase().contains(&pattern.to_lowercase())
-            })
+            let regex = regex::RegexBuilder::new(pattern)
+                .case_insensitive(!self.filters.case_sensitive)
+                .build()
+                .map_err(|error| {
+                    EditorError::command_failed(format!("Invalid pattern: {error}"))
+                })?;
+            return Ok(regex.is_match(text));
         }
+        Ok(if self.filters.case_sensitive {
+            text.contains(pattern)
+        } else {
+            text.to_lowercase().contains(&pattern.to_lowercase())
+        })
     }
 
     fn parse_time_to_cs(&self, time_str: &str) -> Result<u32> {
-        // Simplified time parsing - in practice use ass_core utilities
-        // Format: H:MM:SS.CS
-        let parts: Vec<&str> = time_str.split(':').collect();
-        if parts.len() != 3 {
-            return Err(EditorError::command_failed("Invalid time format"));
-        }
-
-        let hours: u32 = parts[0]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid hours"))?;
-        let minutes: u32 = parts[1]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid minutes"))?;
-
-        let sec_cs_parts: Vec<&str> = parts[2].split('.').collect();
-        if sec_cs_parts.len() != 2 {
-            return Err(EditorError::command_failed("Invalid seconds format"));
-        }
-
-        let seconds: u32 = sec_cs_parts[0]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid seconds"))?;
-        let centiseconds: u32 = sec_cs_parts[1]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid centiseconds"))?;
-
-        Ok(hours * 360000 + minutes * 6000 + seconds * 100 + centiseconds)
+        parse_ass_time(time_str).map_err(|_| EditorError::command_failed("Invalid time format"))
     }
 
     pub(super) fn compare_by_criteria(
diff --git a/crates/ass-editor/core/fluent/query_types.rs b/crates/ass-editor/core/fluent/query_types.rs
index c8beb7f..1ccc997 100644
--- a/crates/ass-editor/core/fluent/query_types.rs
+++ b/crates/ass-editor/core/fluent/query_types.rs
@@ -3,7 +3,7 @@
 //! Defines [`EventInfo`], [`OwnedEvent`], [`EventFilter`], [`EventSortCriteria`],
 //! and [`EventSortOptions`] used by the event query builder.
 
-use crate::core::Range;
+use crate::core::{Position, Range};
 use ass_core::parser::ast::{Event, EventType};
 
 #[cfg(not(feature = "std"))]
@@ -73,6 +73,22 @@ impl<'a> From<&Event<'a>> for OwnedEvent {
     }
 }
 
+impl EventInfo {
+    /// Describe an event of a script with the given source
+    pub(super) fn new(index: usize, event: &Event<'_>, source: &str) -> Self {
+        let line = source[event.span.start..event.span.end].trim_end();
+        Self {
+            index,
+            event: OwnedEvent::from(event),
+            line_number: event.span.line as usize,
+            range: Range::new(
+                Position::new(event.span.start),
+                Position::new(event.span.start + line.len()),
+            ),
+        }
+    }
+}
+
 /// Filter criteria for events
 #[derive(Debug, Clone, Default)]
 pub struct EventFilter {
-- 
2.43.0


From dcaecc23b0bd6574756cbd09fd33d5b617cd3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 42/94] fix: editing an event with a builder keeps its values
 and any spelling of the columns

---
 crates/ass-editor/core/builders/event.rs      | 21 +++++++++++----
 .../ass-editor/core/builders/event_build.rs   | 26 +++++++++----------
 .../ass-editor/core/document/builder_edit.rs  | 19 +-------------
 3 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/crates/ass-editor/core/builders/event.rs b/crates/ass-editor/core/builders/event.rs
index 4c7bf37..50d0711 100644
--- a/crates/ass-editor/core/builders/event.rs
+++ b/crates/ass-editor/core/builders/event.rs
@@ -1,6 +1,6 @@
 //! Event builder type with fluent constructors and field setters.
 
-use ass_core::parser::ast::EventType;
+use ass_core::parser::ast::{Event, EventType};
 
 #[cfg(feature = "std")]
 use std::borrow::Cow;
@@ -57,11 +57,22 @@ impl<'a> EventBuilder<'a> {
         Self::default()
     }
 
-    /// Create a builder for an event of the given type
-    pub(crate) fn of_type(event_type: EventType) -> Self {
+    /// Create a builder with the values of an existing event
+    pub(crate) fn from_event(event: &Event<'a>) -> Self {
         Self {
-            event_type: Some(event_type),
-            ..Self::default()
+            event_type: Some(event.event_type),
+            start: Some(Cow::Borrowed(event.start)),
+            end: Some(Cow::Borrowed(event.end)),
+            style: Some(Cow::Borrowed(event.style)),
+            name: Some(Cow::Borrowed(event.name)),
+            text: Some(Cow::Borrowed(event.text)),
+            layer: Some(Cow::Borrowed(event.layer)),
+            margin_l: Some(Cow::Borrowed(event.margin_l)),
+            margin_r: Some(Cow::Borrowed(event.margin_r)),
+            margin_v: Some(Cow::Borrowed(event.margin_v)),
+            margin_t: event.margin_t.map(Cow::Borrowed),
+            margin_b: event.margin_b.map(Cow::Borrowed),
+            effect: Some(Cow::Borrowed(event.effect)),
         }
     }
 
diff --git a/crates/ass-editor/core/builders/event_build.rs b/crates/ass-editor/core/builders/event_build.rs
index 26efb94..ec68d56 100644
--- a/crates/ass-editor/core/builders/event_build.rs
+++ b/crates/ass-editor/core/builders/event_build.rs
@@ -80,27 +80,27 @@ impl EventBuilder<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "Start" => self
+            let value = match field.to_ascii_lowercase().as_str() {
+                "layer" => self.layer.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "start" => self
                     .start
                     .as_ref()
                     .map(|c| c.as_ref())
                     .unwrap_or("0:00:00.00"),
-                "End" => self
+                "end" => self
                     .end
                     .as_ref()
                     .map(|c| c.as_ref())
                     .unwrap_or("0:00:05.00"),
-                "Style" => self.style.as_ref().map(|c| c.as_ref()).unwrap_or("Default"),
-                "Name" | "Actor" => self.name.as_ref().map(|c| c.as_ref()).unwrap_or(""),
-                "MarginL" => self.margin_l.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginR" => self.margin_r.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginV" => self.margin_v.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginT" => self.margin_t.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginB" => self.margin_b.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "Effect" => self.effect.as_ref().map(|c| c.as_ref()).unwrap_or(""),
-                "Text" => self.text.as_ref().map(|c| c.as_ref()).unwrap_or(""),
+                "style" => self.style.as_ref().map(|c| c.as_ref()).unwrap_or("Default"),
+                "name" | "actor" => self.name.as_ref().map(|c| c.as_ref()).unwrap_or(""),
+                "marginl" => self.margin_l.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "marginr" => self.margin_r.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "marginv" => self.margin_v.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "margint" => self.margin_t.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "marginb" => self.margin_b.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
+                "effect" => self.effect.as_ref().map(|c| c.as_ref()).unwrap_or(""),
+                "text" => self.text.as_ref().map(|c| c.as_ref()).unwrap_or(""),
                 _ => {
                     return Err(EditorError::FormatLineError {
                         message: format!("Unknown event field: {field}"),
diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index be86ff8..7c0e99f 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -69,24 +69,7 @@ impl EditorDocument {
                 .ok_or_else(|| EditorError::command_failed("Event not found"))?;
 
             // Create a builder pre-populated with current values
-            let mut builder = EventBuilder::of_type(event.event_type)
-                .layer(event.layer.parse::<u32>().unwrap_or(0))
-                .start_time(event.start)
-                .end_time(event.end)
-                .style(event.style)
-                .speaker(event.name)
-                .margin_left(event.margin_l.parse::<u32>().unwrap_or(0))
-                .margin_right(event.margin_r.parse::<u32>().unwrap_or(0))
-                .margin_vertical(event.margin_v.parse::<u32>().unwrap_or(0))
-                .effect(event.effect)
-                .text(event.text);
-
-            if let Some(margin_t) = event.margin_t {
-                builder = builder.margin_top(margin_t.parse::<u32>().unwrap_or(0));
-            }
-            if let Some(margin_b) = event.margin_b {
-                builder = builder.margin_bottom(margin_b.parse::<u32>().unwrap_or(0));
-            }
+            let builder = EventBuilder::from_event(event);
 
             // Apply user modifications and write the columns the script has
             let modified_builder = builder_fn(builder);
-- 
2.43.0


From 7386c35f45c350de24fa3b9b055641e6494a13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 43/94] fix: the time index belongs to its events, and
 selection survives any time and region

---
 .../src/renderer/event_selector.rs            | 24 ++++++++++-------
 crates/ass-renderer/src/renderer/frame.rs     |  4 +--
 .../ass-renderer/src/renderer/time_index.rs   | 26 +++++++++++++++----
 crates/ass-renderer/src/utils/regions.rs      | 12 ++++++---
 4 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index d2f9ae8..00bf8a0 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -154,7 +154,7 @@ impl EventSelector {
             || self.has_animated_events(&active_events, time_cs)
             || self
                 .last_timestamp
-                .is_none_or(|last| (time_cs as i32 - last as i32).abs() > 100);
+                .is_none_or(|last| time_cs.abs_diff(last) > 100);
 
         // Update state
         self.previous_active = current_active;
@@ -170,12 +170,12 @@ impl EventSelector {
 
     /// Build (or reuse) the parsed time index for `events`.
     ///
-    /// The index is keyed by the events slice's address, length, and the current
+    /// The index is keyed by the events' kinds and time strings and the current
     /// comment-rendering flag; when that key is unchanged the existing index is
     /// kept, so each event's start/end time string is parsed only once per script
     /// rather than on every frame.
     fn ensure_index(&mut self, events: &[Event]) {
-        let key = (events.as_ptr() as usize, events.len(), self.render_comments);
+        let key = TimeIndex::key(events, self.render_comments);
         if self
             .time_index
             .as_ref()
@@ -219,8 +219,14 @@ impl EventSelector {
                 // Expand existing region
                 let min_x = region.x.min(x);
                 let min_y = region.y.min(y);
-                let max_x = (region.x + region.width).max(x + width);
-                let max_y = (region.y + region.height).max(y + height);
+                let max_x = region
+                    .x
+                    .saturating_add(region.width)
+                    .max(x.saturating_add(width));
+                let max_y = region
+                    .y
+                    .saturating_add(region.height)
+                    .max(y.saturating_add(height));
                 region.x = min_x;
                 region.y = min_y;
                 region.width = max_x - min_x;
@@ -239,10 +245,10 @@ impl EventSelector {
 
     /// Check if two regions overlap
     fn regions_overlap(region: &DirtyRegion, x: u32, y: u32, width: u32, height: u32) -> bool {
-        !(x >= region.x + region.width
-            || x + width <= region.x
-            || y >= region.y + region.height
-            || y + height <= region.y)
+        !(x >= region.x.saturating_add(region.width)
+            || x.saturating_add(width) <= region.x
+            || y >= region.y.saturating_add(region.height)
+            || y.saturating_add(height) <= region.y)
     }
 
     /// Get current dirty regions
diff --git a/crates/ass-renderer/src/renderer/frame.rs b/crates/ass-renderer/src/renderer/frame.rs
index 4089b86..cf6c363 100644
--- a/crates/ass-renderer/src/renderer/frame.rs
+++ b/crates/ass-renderer/src/renderer/frame.rs
@@ -67,7 +67,7 @@ impl Frame {
 
     /// Create an empty frame (transparent)
     pub fn empty(width: u32, height: u32, timestamp: u32) -> Self {
-        let size = (width * height * 4) as usize;
+        let size = width as usize * height as usize * 4;
         Self::new(vec![0; size], width, height, timestamp)
     }
 
@@ -146,7 +146,7 @@ impl Frame {
                 self
             }
             PixelFormat::Rgb8 => {
-                let mut rgba = Vec::with_capacity((self.width * self.height * 4) as usize);
+                let mut rgba = Vec::with_capacity(self.width as usize * self.height as usize * 4);
                 for chunk in self.buffer.chunks_exact(3) {
                     rgba.extend_from_slice(&[chunk[0], chunk[1], chunk[2], 255]);
                 }
diff --git a/crates/ass-renderer/src/renderer/time_index.rs b/crates/ass-renderer/src/renderer/time_index.rs
index 8e065a3..d71219f 100644
--- a/crates/ass-renderer/src/renderer/time_index.rs
+++ b/crates/ass-renderer/src/renderer/time_index.rs
@@ -1,23 +1,39 @@
 //! Parsed timing index used by the event selector for incremental rendering.
 
 use ass_core::parser::{ast::EventType, Event};
+use core::hash::{Hash, Hasher};
 
 #[cfg(feature = "nostd")]
 use alloc::vec::Vec;
 
 /// Parsed, start-sorted timing index for a script's events.
 ///
-/// Keyed by the events `Vec`'s address, length, and the comment-rendering flag,
-/// so it is reused across frames and rebuilt only when the script (or that flag)
-/// changes. Each entry is `(start_cs, end_cs, original_index)`; the original
+/// Keyed by a fingerprint of the events' kinds and time strings and the
+/// comment-rendering flag, so it is reused across frames and rebuilt only when the
+/// timing of the script (or that flag) changes. Each entry is `(start_cs, end_cs, original_index)`; the original
 /// index preserves file-order rendering when active events are emitted.
 #[derive(Debug, Clone)]
 pub(super) struct TimeIndex {
-    pub(super) key: (usize, usize, bool),
+    pub(super) key: (u64, bool),
     pub(super) by_start: Vec<(u32, u32, usize)>,
 }
 
 impl TimeIndex {
+    /// Key under which the index of `events` is reused.
+    ///
+    /// It covers what the index is built from rather than the slice's address:
+    /// another script may live where a dropped one did.
+    pub(super) fn key(events: &[Event], render_comments: bool) -> (u64, bool) {
+        let mut hasher = ahash::AHasher::default();
+        events.len().hash(&mut hasher);
+        for event in events {
+            event.event_type.hash(&mut hasher);
+            event.start.hash(&mut hasher);
+            event.end.hash(&mut hasher);
+        }
+        (hasher.finish(), render_comments)
+    }
+
     /// Build the parsed time index for `events`.
     ///
     /// Each included event's start/end time string is parsed once here, and the
@@ -25,7 +41,7 @@ impl TimeIndex {
     /// per-frame scan with `partition_point`. `Dialogue` events are always
     /// included; `Comment` events only when `render_comments` is set.
     pub(super) fn build(events: &[Event], render_comments: bool) -> Self {
-        let key = (events.as_ptr() as usize, events.len(), render_comments);
+        let key = Self::key(events, render_comments);
 
         let mut by_start = Vec::new();
         for (idx, event) in events.iter().enumerate() {
diff --git a/crates/ass-renderer/src/utils/regions.rs b/crates/ass-renderer/src/utils/regions.rs
index f14ee8a..41cd3ff 100644
--- a/crates/ass-renderer/src/utils/regions.rs
+++ b/crates/ass-renderer/src/utils/regions.rs
@@ -49,8 +49,14 @@ impl DirtyRegion {
     pub fn merge(&self, other: &Self) -> Self {
         let x1 = self.x.min(other.x);
         let y1 = self.y.min(other.y);
-        let x2 = (self.x + self.width).max(other.x + other.width);
-        let y2 = (self.y + self.height).max(other.y + other.height);
+        let x2 = self
+            .x
+            .saturating_add(self.width)
+            .max(other.x.saturating_add(other.width));
+        let y2 = self
+            .y
+            .saturating_add(self.height)
+            .max(other.y.saturating_add(other.height));
 
         Self {
             x: x1,
@@ -62,7 +68,7 @@ impl DirtyRegion {
 
     /// Check if region contains point
     pub fn contains_point(&self, x: u32, y: u32) -> bool {
-        x >= self.x && x < self.x + self.width && y >= self.y && y < self.y + self.height
+        x >= self.x && x - self.x < self.width && y >= self.y && y - self.y < self.height
     }
 
     /// Get area of region
-- 
2.43.0


From 3b3698eac5ba259d6a25363c6bb4d5a280288cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 44/94] fix: a frame depends on the script, time and size
 alone, rendered afresh or incrementally

---
 .../ass-renderer/src/backends/software/mod.rs |  45 ++++---
 crates/ass-renderer/src/pipeline/build/mod.rs |  12 ++
 crates/ass-renderer/src/pipeline/build/run.rs |  64 +++++++---
 .../ass-renderer/src/pipeline/font_loader.rs  |  28 +++++
 crates/ass-renderer/src/pipeline/mod.rs       |  11 ++
 crates/ass-renderer/src/renderer/mod.rs       | 119 ++++++++++++++----
 6 files changed, 220 insertions(+), 59 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index d2797ed..690330a 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -203,32 +203,37 @@ impl RenderBackend for SoftwareBackend {
         previous_frame: &[u8],
         context: &RenderContext,
     ) -> Result<Vec<u8>, RenderError> {
-        if self.pixmap.width() != context.width() || self.pixmap.height() != context.height() {
-            self.resize(context.width(), context.height())?;
+        // tiny_skia offers no cheap clip, and a layer drawn over itself is not the
+        // layer: draw the new picture, then keep the previous one outside the
+        // dirty regions.
+        let mut data = self.composite_layers(layers, context)?;
+        if previous_frame.len() != data.len() {
+            return Ok(data);
         }
-
-        // Seed from the previous frame, then redraw only the dirty regions.
-        if previous_frame.len() == self.pixmap.data().len() {
-            self.pixmap.data_mut().copy_from_slice(previous_frame);
-        } else {
-            self.pixmap.fill(tiny_skia::Color::TRANSPARENT);
+        let row_bytes = context.width() as usize * 4;
+        if row_bytes == 0 {
+            return Ok(data);
         }
-
-        // Only redraw dirty regions
-        for region in dirty_regions {
-            // TODO: Create clip mask for dirty region
-            // tiny_skia doesn't expose ClipMask publicly
-            let _ = region; // TODO: Apply clipping
-
-            // Composite layers within this region
-            for layer in layers {
-                if layer.intersects_region(region) {
-                    self.composite_layer(layer, context)?;
+        for (y, (row, old_row)) in data
+            .chunks_exact_mut(row_bytes)
+            .zip(previous_frame.chunks_exact(row_bytes))
+            .enumerate()
+        {
+            for (x, (pixel, old)) in row
+                .chunks_exact_mut(4)
+                .zip(old_row.chunks_exact(4))
+                .enumerate()
+            {
+                if !dirty_regions
+                    .iter()
+                    .any(|region| region.contains_point(x as u32, y as u32))
+                {
+                    pixel.copy_from_slice(old);
                 }
             }
         }
 
-        Ok(self.pixmap.data().to_vec())
+        Ok(data)
     }
 
     fn supports_feature(&self, feature: BackendFeature) -> bool {
diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index ce2cd1d..0b57902 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -23,6 +23,10 @@ use style::OwnedStyle;
 pub struct SoftwarePipeline {
     /// Font database for text rendering
     font_database: FontDatabase,
+    /// The fonts every script can use
+    system_fonts: FontDatabase,
+    /// Which fonts of a script `font_database` holds besides, if any
+    script_fonts: Option<u64>,
     /// Glyph renderer
     #[allow(dead_code)] // Glyph rendering component - used in future rendering features
     glyph_renderer: GlyphRenderer,
@@ -37,6 +41,8 @@ pub struct SoftwarePipeline {
     /// Script playback resolution from PlayResX/PlayResY
     play_res_x: f32,
     play_res_y: f32,
+    /// Playback resolution of a script that does not state one
+    default_res: (f32, f32),
     /// Script layout resolution from LayoutResX/LayoutResY (if present)
     layout_res_x: Option<f32>,
     layout_res_y: Option<f32>,
@@ -64,7 +70,9 @@ impl SoftwarePipeline {
         font_database.load_system_fonts();
 
         Self {
+            system_fonts: font_database.clone(),
             font_database,
+            script_fonts: None,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(1920.0, 1080.0),
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
@@ -72,6 +80,7 @@ impl SoftwarePipeline {
             default_style: None,
             play_res_x: 1920.0, // Default resolution
             play_res_y: 1080.0, // Default resolution
+            default_res: (1920.0, 1080.0),
             layout_res_x: None,
             layout_res_y: None,
             scaled_border_and_shadow: true, // Default to true per ASS spec
@@ -86,7 +95,9 @@ impl SoftwarePipeline {
         font_database.load_system_fonts();
 
         Self {
+            system_fonts: font_database.clone(),
             font_database,
+            script_fonts: None,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(width, height),
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
@@ -94,6 +105,7 @@ impl SoftwarePipeline {
             default_style: None,
             play_res_x: width,  // Use provided dimensions as default
             play_res_y: height, // Use provided dimensions as default
+            default_res: (width, height),
             layout_res_x: None,
             layout_res_y: None,
             scaled_border_and_shadow: true, // Default to true per ASS spec
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b4d17df..8d533d3 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -11,7 +11,9 @@ use ass_core::parser::{Event, Script};
 
 use super::OwnedStyle;
 use crate::collision::PositionedEvent;
-use crate::pipeline::{text_segmenter::segment_text_with_tags, IntermediateLayer, Pipeline};
+use crate::pipeline::{
+    is_animated, text_segmenter::segment_text_with_tags, IntermediateLayer, Pipeline,
+};
 use crate::renderer::RenderContext;
 use crate::utils::{DirtyRegion, RenderError};
 
@@ -61,6 +63,11 @@ impl super::SoftwarePipeline {
     }
 }
 
+/// A resolution coordinates can be scaled by.
+fn is_usable(resolution: &(u32, u32)) -> bool {
+    resolution.0 > 0 && resolution.1 > 0
+}
+
 #[allow(dead_code)] // Utility for karaoke effects - used in future features
 fn calculate_karaoke_progress(time_cs: u32, start_time_cs: u32, duration_cs: u32) -> f32 {
     if time_cs < start_time_cs {
@@ -80,12 +87,25 @@ impl Pipeline for super::SoftwarePipeline {
         #[cfg(feature = "analysis-integration")] analysis: Option<&ScriptAnalysis>,
         #[cfg(not(feature = "analysis-integration"))] _analysis: Option<()>,
     ) -> Result<(), RenderError> {
-        // Load embedded and referenced fonts from the script
-        super::super::font_loader::load_script_fonts(script, &mut self.font_database);
+        // Load embedded and referenced fonts from the script, once per set of
+        // fonts and without those of an earlier script
+        let script_fonts = super::super::font_loader::script_fonts_key(script);
+        if self.script_fonts != script_fonts {
+            self.font_database = self.system_fonts.clone();
+            super::super::font_loader::load_script_fonts(script, &mut self.font_database);
+            self.script_fonts = script_fonts;
+        }
 
-        // Clear and rebuild styles map
+        // Clear and rebuild styles map, and forget what the previous script's
+        // header said: a field this script leaves out has its default again.
         self.styles_map.clear();
         self.default_style = None;
+        (self.play_res_x, self.play_res_y) = self.default_res;
+        self.layout_res_x = None;
+        self.layout_res_y = None;
+        self.scaled_border_and_shadow = true;
+        self.wrap_style = 0;
+        let mut first_style = None;
 
         // If we have analysis with resolved styles (which handle LayoutRes->PlayRes scaling),
         // we should use those instead of raw styles
@@ -99,7 +119,7 @@ impl Pipeline for super::SoftwarePipeline {
             match section {
                 ass_core::parser::Section::ScriptInfo(info) => {
                     // Extract PlayResX and PlayResY from script info
-                    if let Some((res_x, res_y)) = info.play_resolution() {
+                    if let Some((res_x, res_y)) = info.play_resolution().filter(is_usable) {
                         self.play_res_x = res_x as f32;
                         self.play_res_y = res_y as f32;
                     }
@@ -108,7 +128,7 @@ impl Pipeline for super::SoftwarePipeline {
                     self.wrap_style = info.wrap_style();
 
                     // Extract LayoutResX and LayoutResY if present
-                    if let Some((layout_x, layout_y)) = info.layout_resolution() {
+                    if let Some((layout_x, layout_y)) = info.layout_resolution().filter(is_usable) {
                         self.layout_res_x = Some(layout_x as f32);
                         self.layout_res_y = Some(layout_y as f32);
 
@@ -196,6 +216,9 @@ impl Pipeline for super::SoftwarePipeline {
                             self.default_style = Some(owned_style.clone());
                         }
 
+                        if first_style.is_none() {
+                            first_style = Some(owned_style.clone());
+                        }
                         self.styles_map.insert(style_name, owned_style);
                     }
                 }
@@ -204,8 +227,8 @@ impl Pipeline for super::SoftwarePipeline {
         }
 
         // If no default style found, use the first one
-        if self.default_style.is_none() && !self.styles_map.is_empty() {
-            self.default_style = self.styles_map.values().next().cloned();
+        if self.default_style.is_none() {
+            self.default_style = first_style;
         }
 
         Ok(())
@@ -221,8 +244,12 @@ impl Pipeline for super::SoftwarePipeline {
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
-        // Clear collision resolver for this frame (but keep dimensions)
-        self.collision_resolver.clear();
+        // Fresh collision resolver for this frame, in the frame's own pixels: that
+        // is what the boxes and margins below are measured in.
+        self.collision_resolver = crate::collision::CollisionResolver::new(
+            context.width() as f32,
+            context.height() as f32,
+        );
 
         // Pre-allocate with estimated capacity to reduce allocations
         let mut all_layers = Vec::with_capacity(events.len() * 3);
@@ -282,13 +309,16 @@ impl Pipeline for super::SoftwarePipeline {
         let mut regions = Vec::new();
 
         for event in events {
-            let was_active = event.start_time_cs().unwrap_or(0) <= prev_time_cs
-                && event.end_time_cs().unwrap_or(u32::MAX) > prev_time_cs;
-            let is_active = event.start_time_cs().unwrap_or(0) <= time_cs
-                && event.end_time_cs().unwrap_or(u32::MAX) > time_cs;
-
-            if was_active != is_active {
-                // Event visibility changed, mark entire screen as dirty for now
+            let start = event.start_time_cs().unwrap_or(0);
+            let end = event.end_time_cs().unwrap_or(0);
+            let was_active = start <= prev_time_cs && end > prev_time_cs;
+            let is_active = start <= time_cs && end > time_cs;
+
+            if was_active != is_active
+                || (is_active && time_cs != prev_time_cs && is_animated(event.text))
+            {
+                // The event appears, disappears or changes: mark the entire
+                // screen as dirty for now
                 regions.push(DirtyRegion::full_screen());
                 break;
             }
diff --git a/crates/ass-renderer/src/pipeline/font_loader.rs b/crates/ass-renderer/src/pipeline/font_loader.rs
index c11cf44..6a44541 100644
--- a/crates/ass-renderer/src/pipeline/font_loader.rs
+++ b/crates/ass-renderer/src/pipeline/font_loader.rs
@@ -107,3 +107,31 @@ pub fn load_script_fonts(script: &Script, font_database: &mut FontDatabase) {
     // Load external font files if referenced
     load_font_files(script, font_database);
 }
+
+/// Identify the fonts [`load_script_fonts`] would add for a script; `None` if none.
+pub(crate) fn script_fonts_key(script: &Script) -> Option<u64> {
+    use core::hash::{Hash, Hasher};
+
+    let mut hasher = ahash::AHasher::default();
+    let mut any = false;
+    for section in script.sections() {
+        match section {
+            ass_core::parser::ast::Section::Fonts(fonts) => {
+                for font in fonts {
+                    (font.filename, &font.data_lines).hash(&mut hasher);
+                    any = true;
+                }
+            }
+            ass_core::parser::ast::Section::ScriptInfo(info) => {
+                for (key, value) in &info.fields {
+                    if key.to_lowercase().contains("font") {
+                        (key, value).hash(&mut hasher);
+                        any = true;
+                    }
+                }
+            }
+            _ => {}
+        }
+    }
+    any.then(|| hasher.finish())
+}
diff --git a/crates/ass-renderer/src/pipeline/mod.rs b/crates/ass-renderer/src/pipeline/mod.rs
index aec0dd1..45592dd 100644
--- a/crates/ass-renderer/src/pipeline/mod.rs
+++ b/crates/ass-renderer/src/pipeline/mod.rs
@@ -25,6 +25,17 @@ pub mod validation;
 mod build;
 pub use build::SoftwarePipeline;
 
+/// Whether an event's text carries a time-dependent override (`\t`, `\move`,
+/// karaoke `\k`/`\K`, or `\fad`), meaning its output changes between frames
+/// and must not be served from the static frame cache.
+pub(crate) fn is_animated(text: &str) -> bool {
+    text.contains("\\t")
+        || text.contains("\\move")
+        || text.contains("\\fad")
+        || text.contains("\\k")
+        || text.contains("\\K")
+}
+
 /// Pipeline trait for processing events
 pub trait Pipeline: Send + Sync {
     /// Prepare the pipeline with a script
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index bcbe7ff..764ec53 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -3,7 +3,8 @@
 use crate::backends::RenderBackend;
 use crate::pipeline::Pipeline;
 use crate::utils::RenderError;
-use ass_core::parser::Script;
+use ass_core::parser::{Event, Script};
+use core::hash::{Hash, Hasher};
 
 #[cfg(feature = "nostd")]
 use alloc::{boxed::Box, vec::Vec};
@@ -33,7 +34,7 @@ pub struct Renderer {
     /// text spans. Reused (data copied, timestamp updated) when no active event is
     /// animated and the active set is unchanged — the common case of a subtitle
     /// shown across many frames. Animated frames (`\t`/`\move`/`\k`/`\fad`) skip it.
-    frame_cache: Option<(Vec<(usize, usize)>, Frame)>,
+    frame_cache: Option<(u64, Frame)>,
 }
 
 impl Renderer {
@@ -109,13 +110,8 @@ impl Renderer {
         // identical for every time the same events are active, so reuse the last
         // render (copying its pixels with the current timestamp) instead of
         // re-shaping and re-rasterizing. Animated frames bypass and clear it.
-        let animated = events.iter().any(|e| Self::event_is_animated(e.text));
-        let cache_key: Option<Vec<(usize, usize)>> = (!animated).then(|| {
-            events
-                .iter()
-                .map(|e| (e.text.as_ptr() as usize, e.text.len()))
-                .collect()
-        });
+        let animated = events.iter().any(|e| crate::pipeline::is_animated(e.text));
+        let cache_key = (!animated).then(|| self.frame_key(script, &events));
         if let (Some(key), Some((cached_key, cached))) =
             (cache_key.as_ref(), self.frame_cache.as_ref())
         {
@@ -182,15 +178,77 @@ impl Renderer {
             .render_layers_to_bitmaps(&layers, &self.context)
     }
 
-    /// Whether an event's text carries a time-dependent override (`\t`, `\move`,
-    /// karaoke `\k`/`\K`, or `\fad`), meaning its output changes between frames
-    /// and must not be served from the static frame cache.
-    fn event_is_animated(text: &str) -> bool {
-        text.contains("\\t")
-            || text.contains("\\move")
-            || text.contains("\\fad")
-            || text.contains("\\k")
-            || text.contains("\\K")
+    /// Identify a static frame by everything its picture is made from.
+    ///
+    /// The events' texts alone would not do: the same text is drawn differently
+    /// under other styles, script headers, event columns and frame sizes, and
+    /// another script may live at the address of a dropped one.
+    fn frame_key(&self, script: &Script, events: &[&Event]) -> u64 {
+        use ass_core::parser::Section;
+
+        let mut hasher = ahash::AHasher::default();
+        self.context.width().hash(&mut hasher);
+        self.context.height().hash(&mut hasher);
+        for section in script.sections() {
+            match section {
+                Section::ScriptInfo(info) => {
+                    for (key, value) in &info.fields {
+                        (key, value).hash(&mut hasher);
+                    }
+                }
+                Section::Styles(styles) => {
+                    for style in styles {
+                        [
+                            style.name,
+                            style.fontname,
+                            style.fontsize,
+                            style.primary_colour,
+                            style.secondary_colour,
+                            style.outline_colour,
+                            style.back_colour,
+                            style.bold,
+                            style.italic,
+                            style.underline,
+                            style.strikeout,
+                            style.scale_x,
+                            style.scale_y,
+                            style.spacing,
+                            style.angle,
+                            style.border_style,
+                            style.outline,
+                            style.shadow,
+                            style.alignment,
+                            style.margin_l,
+                            style.margin_r,
+                            style.margin_v,
+                            style.encoding,
+                        ]
+                        .hash(&mut hasher);
+                    }
+                }
+                Section::Fonts(fonts) => {
+                    for font in fonts {
+                        (font.filename, &font.data_lines).hash(&mut hasher);
+                    }
+                }
+                _ => {}
+            }
+        }
+        for event in events {
+            [
+                event.layer,
+                event.start,
+                event.end,
+                event.style,
+                event.margin_l,
+                event.margin_r,
+                event.margin_v,
+                event.effect,
+                event.text,
+            ]
+            .hash(&mut hasher);
+        }
+        hasher.finish()
     }
 
     /// Render frame incrementally (dirty regions only)
@@ -200,14 +258,31 @@ impl Renderer {
         time_cs: u32,
         previous_frame: &Frame,
     ) -> Result<Frame, RenderError> {
-        let active = self.event_selector.select_active(script, time_cs)?;
-        let events = active.events;
+        // An event that has ended since the previous frame changes the picture as
+        // much as one that has begun, so events of either moment are considered.
+        let before = self
+            .event_selector
+            .select_active(script, previous_frame.timestamp())?
+            .events;
+        let events = self.event_selector.select_active(script, time_cs)?.events;
+        let mut changing = events.clone();
+        changing.extend(
+            before
+                .into_iter()
+                .filter(|old| !events.iter().any(|new| core::ptr::eq(*old, *new))),
+        );
         let dirty_regions =
             self.pipeline
-                .compute_dirty_regions(&events, time_cs, previous_frame.timestamp())?;
+                .compute_dirty_regions(&changing, time_cs, previous_frame.timestamp())?;
 
+        let reusable = previous_frame.width() == self.context.width()
+            && previous_frame.height() == self.context.height()
+            && previous_frame.format() == frame::PixelFormat::Rgba8;
+        if !reusable {
+            return self.render_frame(script, time_cs);
+        }
         if dirty_regions.is_empty() {
-            return Ok(previous_frame.clone());
+            return Ok(previous_frame.with_timestamp(time_cs));
         }
 
         self.pipeline.prepare_script(script, None)?;
-- 
2.43.0


From ae4400756a2db81c2a3a332065381d95028780a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 45/94] fix: blurred, clipped and oversized layers are drawn
 whole, in place and within their clip

---
 crates/ass-renderer/src/backends/blur.rs      |  72 +++++-
 .../src/backends/coverage/composite.rs        |  80 +++---
 .../ass-renderer/src/backends/coverage/mod.rs |  21 +-
 .../src/backends/software/cache/blur_tile.rs  | 122 ++++-----
 .../src/backends/software/cache/coverage.rs   |  46 ++--
 .../src/backends/software/cache/mod.rs        |  88 ++++++-
 .../src/backends/software/dirty.rs            |  36 ++-
 .../ass-renderer/src/backends/software/mod.rs |   5 +-
 .../src/backends/software/text/blur.rs        | 232 ++++++------------
 .../src/backends/software/text/decorations.rs | 146 ++---------
 .../src/backends/software/text/fills.rs       |  45 ++--
 .../src/backends/software/text/mod.rs         |  10 +-
 .../src/backends/software/text/prepare.rs     | 106 ++++----
 .../src/backends/software/vector.rs           |  99 ++++----
 14 files changed, 548 insertions(+), 560 deletions(-)

diff --git a/crates/ass-renderer/src/backends/blur.rs b/crates/ass-renderer/src/backends/blur.rs
index 58d3cbb..c6cbc0f 100644
--- a/crates/ass-renderer/src/backends/blur.rs
+++ b/crates/ass-renderer/src/backends/blur.rs
@@ -4,7 +4,11 @@
 //! `blur_radius_scale`); only the separable-kernel rasterization here is
 //! specific to the software backend.
 
-use tiny_skia::Pixmap;
+use tiny_skia::{Path, Pixmap, Transform};
+
+/// Standard deviation of the Gaussian for a `\blur` of one screen pixel, libass's
+/// `blur_radius_scale`: 2 / sqrt(ln 256).
+pub(crate) const BLUR_TO_SIGMA: f32 = 0.849_321_8;
 
 /// Apply a separable Gaussian blur of standard deviation `sigma` (screen pixels)
 /// to a pixmap.
@@ -17,7 +21,7 @@ use tiny_skia::Pixmap;
 /// wash the glyph centre out at larger radii; the Gaussian keeps a bright
 /// centre with a soft falloff. Applied to glyph-sized temp pixmaps, so the
 /// per-tap cost stays small.
-pub(crate) fn apply_gaussian_blur(pixmap: &mut Pixmap, sigma: f32) {
+fn apply_gaussian_blur(pixmap: &mut Pixmap, sigma: f32) {
     if sigma <= 0.0 {
         return;
     }
@@ -106,3 +110,67 @@ pub(crate) fn apply_gaussian_blur(pixmap: &mut Pixmap, sigma: f32) {
         }
     }
 }
+
+/// Paint `fills` (path and straight RGBA colour, back to front) into a pixmap of
+/// their own and blur it with a Gaussian of standard deviation `sigma`.
+///
+/// Returns the blurred pixmap, the integer position of its top-left corner in the
+/// coordinates of the paths, and whether the picture is whole. `visible` (left, top,
+/// right, bottom) bounds what
+/// the caller can show: a picture larger than that is only painted as far as the
+/// kernel can reach into it.
+pub(crate) fn blurred_fills(
+    fills: &[(Path, [u8; 4])],
+    sigma: f32,
+    visible: (f32, f32, f32, f32),
+) -> Option<(Pixmap, i32, i32, bool)> {
+    /// No blur reaches further than a frame can show.
+    const MAX_SIGMA: f32 = 512.0;
+    /// Pictures up to this many pixels are painted whole, so that they can be
+    /// reused wherever they are shown.
+    const WHOLE: f32 = (1 << 20) as f32;
+
+    let mut bounds: Option<(f32, f32, f32, f32)> = None;
+    for (path, _) in fills {
+        let b = path.bounds();
+        bounds = Some(bounds.map_or((b.left(), b.top(), b.right(), b.bottom()), |a| {
+            (
+                a.0.min(b.left()),
+                a.1.min(b.top()),
+                a.2.max(b.right()),
+                a.3.max(b.bottom()),
+            )
+        }));
+    }
+    let (left, top, right, bottom) = bounds?;
+    // One pixel more than the kernel, for the anti-aliased edge.
+    let sigma = sigma.clamp(0.0, MAX_SIGMA);
+    let reach = (sigma * 3.0).ceil() + 1.0;
+    let (mut x0, mut y0) = (left.floor() - reach, top.floor() - reach);
+    let (mut x1, mut y1) = (right.ceil() + reach, bottom.ceil() + reach);
+    let whole = (x1 - x0) * (y1 - y0) <= WHOLE;
+    if !whole {
+        x0 = x0.max(visible.0.floor() - reach);
+        y0 = y0.max(visible.1.floor() - reach);
+        x1 = x1.min(visible.2.ceil() + reach);
+        y1 = y1.min(visible.3.ceil() + reach);
+    }
+    // Written so that a NaN fails it as well.
+    if !(x1 > x0 && y1 > y0) {
+        return None;
+    }
+
+    let mut pixmap = Pixmap::new((x1 - x0) as u32, (y1 - y0) as u32)?;
+    let offset = Transform::from_translate(-x0, -y0);
+    for (path, color) in fills {
+        let mut paint = tiny_skia::Paint {
+            anti_alias: true,
+            blend_mode: tiny_skia::BlendMode::SourceOver,
+            ..Default::default()
+        };
+        paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
+        pixmap.fill_path(path, &paint, tiny_skia::FillRule::Winding, offset, None);
+    }
+    apply_gaussian_blur(&mut pixmap, sigma);
+    Some((pixmap, x0 as i32, y0 as i32, whole))
+}
diff --git a/crates/ass-renderer/src/backends/coverage/composite.rs b/crates/ass-renderer/src/backends/coverage/composite.rs
index 72ae4da..5637af2 100644
--- a/crates/ass-renderer/src/backends/coverage/composite.rs
+++ b/crates/ass-renderer/src/backends/coverage/composite.rs
@@ -4,9 +4,29 @@
 //! [`RenderBitmap`] onto a premultiplied-RGBA8 frame, reusing the low-level
 //! blend helpers in [`super::blend`].
 
+use core::ops::Range;
+
 use super::blend::{blend_row, mul255};
 use super::{CoverageTile, RenderBitmap};
 
+/// The rows and columns of a tile at `pos` that lie on the frame, and the row and
+/// column of the frame where they start; `None` when none do.
+fn overlap(
+    tile: (u32, u32),
+    frame: (u32, u32),
+    pos: (i32, i32),
+) -> Option<(Range<usize>, Range<usize>, usize, usize)> {
+    let along = |tile: u32, frame: u32, pos: i32| {
+        let pos = i64::from(pos);
+        let start = (-pos).max(0);
+        let end = i64::from(tile).min(i64::from(frame) - pos);
+        (end > start).then_some((start as usize..end as usize, (pos + start) as usize))
+    };
+    let (cols, dst_col) = along(tile.0, frame.0, pos.0)?;
+    let (rows, dst_row) = along(tile.1, frame.1, pos.1)?;
+    Some((rows, cols, dst_row, dst_col))
+}
+
 /// Source-over an A8 `cov` (`cov_w * cov_h`) onto a premultiplied-RGBA8 buffer at
 /// `(x, y)` using a straight (non-premultiplied) `color`.
 ///
@@ -28,25 +48,17 @@ fn composite_coverage(
     let pg = mul255(u16::from(color[1]), pa);
     let pb = mul255(u16::from(color[2]), pa);
 
-    let (dst_w, dst_h) = dst_dim;
+    let (dst_w, _) = dst_dim;
     let (cov, cov_w, cov_h) = src;
-    let (x, y) = pos;
 
     // Clip the tile against the destination once so the row blend is bounds-free.
-    let (tw, th) = (cov_w as i32, cov_h as i32);
-    let (dw, dh) = (dst_w as i32, dst_h as i32);
-    let ty0 = (-y).max(0);
-    let ty1 = th.min(dh - y);
-    let tx0 = (-x).max(0);
-    let tx1 = tw.min(dw - x);
-    if ty1 <= ty0 || tx1 <= tx0 {
+    let Some((rows, cols, dst_row, dst_col)) = overlap((cov_w, cov_h), dst_dim, pos) else {
         return;
-    }
-    let run = (tx1 - tx0) as usize;
-    for ty in ty0..ty1 {
-        let tile_base = (ty * tw + tx0) as usize;
-        let cov_row = &cov[tile_base..tile_base + run];
-        let dst_start = ((y + ty) * dw + x + tx0) as usize * 4;
+    };
+    for (i, ty) in rows.enumerate() {
+        let tile_base = ty * cov_w as usize;
+        let cov_row = &cov[tile_base + cols.start..tile_base + cols.end];
+        let dst_start = ((dst_row + i) * dst_w as usize + dst_col) * 4;
         blend_row(dst, dst_start, cov_row, pr, pg, pb, pa);
     }
 }
@@ -99,34 +111,30 @@ pub fn composite_bitmap(dst: &mut [u8], dst_w: u32, dst_h: u32, bmp: &RenderBitm
     }
 }
 
+/// A channel of the source over one of the frame, of which `inv` shows through. A
+/// blurred glow is brighter than its alpha, so the sum can exceed the channel.
+fn over(src: u8, dst: u8, inv: u16) -> u8 {
+    (u16::from(src) + mul255(u16::from(dst), inv)).min(255) as u8
+}
+
 /// Source-over a premultiplied-RGBA `src` tile onto a premultiplied-RGBA frame.
 fn composite_rgba(dst: &mut [u8], dst_dim: (u32, u32), src: (&[u8], u32, u32), pos: (i32, i32)) {
-    let (dst_w, dst_h) = dst_dim;
+    let (dst_w, _) = dst_dim;
     let (pixels, sw, sh) = src;
-    let (x, y) = pos;
-    let (tw, th) = (sw as i32, sh as i32);
-    let (dw, dh) = (dst_w as i32, dst_h as i32);
-    let ty0 = (-y).max(0);
-    let ty1 = th.min(dh - y);
-    let tx0 = (-x).max(0);
-    let tx1 = tw.min(dw - x);
-    if ty1 <= ty0 || tx1 <= tx0 {
+    let Some((rows, cols, dst_row, dst_col)) = overlap((sw, sh), dst_dim, pos) else {
         return;
-    }
-    for ty in ty0..ty1 {
-        let mut si = ((ty * tw + tx0) as usize) * 4;
-        let mut di = ((y + ty) * dw + x + tx0) as usize * 4;
-        for _ in tx0..tx1 {
+    };
+    for (i, ty) in rows.enumerate() {
+        let mut si = (ty * sw as usize + cols.start) * 4;
+        let mut di = ((dst_row + i) * dst_w as usize + dst_col) * 4;
+        for _ in cols.clone() {
             let sa = u16::from(pixels[si + 3]);
             if sa != 0 {
                 let inv = 255 - sa;
-                dst[di] = (u16::from(pixels[si]) + mul255(u16::from(dst[di]), inv)) as u8;
-                dst[di + 1] =
-                    (u16::from(pixels[si + 1]) + mul255(u16::from(dst[di + 1]), inv)) as u8;
-                dst[di + 2] =
-                    (u16::from(pixels[si + 2]) + mul255(u16::from(dst[di + 2]), inv)) as u8;
-                dst[di + 3] =
-                    (u16::from(pixels[si + 3]) + mul255(u16::from(dst[di + 3]), inv)) as u8;
+                dst[di] = over(pixels[si], dst[di], inv);
+                dst[di + 1] = over(pixels[si + 1], dst[di + 1], inv);
+                dst[di + 2] = over(pixels[si + 2], dst[di + 2], inv);
+                dst[di + 3] = over(pixels[si + 3], dst[di + 3], inv);
             }
             si += 4;
             di += 4;
diff --git a/crates/ass-renderer/src/backends/coverage/mod.rs b/crates/ass-renderer/src/backends/coverage/mod.rs
index 9df2ea9..3bbe606 100644
--- a/crates/ass-renderer/src/backends/coverage/mod.rs
+++ b/crates/ass-renderer/src/backends/coverage/mod.rs
@@ -23,6 +23,10 @@ mod composite;
 
 pub use composite::{composite, composite_bitmap};
 
+/// The largest coverage tile, in pixels: two 4K frames. A larger path is filled
+/// straight onto the frame, which bounds it.
+const MAX_TILE_PIXELS: u64 = 1 << 24;
+
 /// An 8-bit coverage tile: `width * height` alpha samples, row-major.
 ///
 /// The coverage is `Arc`-shared so a cached tile can be emitted as a
@@ -83,17 +87,20 @@ impl CoverageTile {
     /// composited. The path's sub-pixel position is baked into the coverage, so
     /// compositing at the returned integer offset reproduces the anti-aliasing
     /// of a direct fill at the original position. Returns `None` for an empty or
-    /// unrasterizable path.
+    /// unrasterizable path, and for one too large for a tile.
     #[must_use]
     pub fn rasterize(path: &Path) -> Option<(Self, i32, i32)> {
         let bounds = path.bounds();
         // Pad by one pixel so anti-aliased edges are not clipped at the border.
-        let min_x = bounds.left().floor() as i32 - 1;
-        let min_y = bounds.top().floor() as i32 - 1;
-        let max_x = bounds.right().ceil() as i32 + 1;
-        let max_y = bounds.bottom().ceil() as i32 + 1;
-        let width = u32::try_from((max_x - min_x).max(1)).ok()?;
-        let height = u32::try_from((max_y - min_y).max(1)).ok()?;
+        let min_x = (bounds.left().floor() as i32).saturating_sub(1);
+        let min_y = (bounds.top().floor() as i32).saturating_sub(1);
+        let max_x = (bounds.right().ceil() as i32).saturating_add(1);
+        let max_y = (bounds.bottom().ceil() as i32).saturating_add(1);
+        let width = max_x.abs_diff(min_x).max(1);
+        let height = max_y.abs_diff(min_y).max(1);
+        if u64::from(width) * u64::from(height) > MAX_TILE_PIXELS {
+            return None;
+        }
 
         // Feed the path's contours to the in-house scanline rasterizer, in tile
         // coordinates (origin at the padded bbox corner). Each contour is closed
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 92ad0f0..0dc4cc5 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -22,6 +22,8 @@ fn emit_cached(
     use crate::backends::coverage::RenderBitmap;
     let (anchor_x, anchor_y) = anchor;
     let (outline_color, shadow, fill_color) = colors;
+    let at =
+        |anchor: i32, offset: i32, shift: i32| anchor.saturating_add(offset).saturating_add(shift);
     let mut out = Vec::new();
     let bitmap =
         |tile: &crate::backends::coverage::CoverageTile, x: i32, y: i32, color: [u8; 4]| {
@@ -37,13 +39,23 @@ fn emit_cached(
     // Shadow: the fill shape in the shadow colour, displaced. Reuses the fill
     // tile rather than a separately rasterized one.
     if let (Some((color, (dx, dy))), Some((tile, ox, oy))) = (shadow, &cached.fill) {
-        out.push(bitmap(tile, anchor_x + ox + dx, anchor_y + oy + dy, color));
+        out.push(bitmap(
+            tile,
+            at(anchor_x, *ox, dx),
+            at(anchor_y, *oy, dy),
+            color,
+        ));
     }
     if let (Some(color), Some((tile, ox, oy))) = (outline_color, &cached.outline) {
-        out.push(bitmap(tile, anchor_x + ox, anchor_y + oy, color));
+        out.push(bitmap(
+            tile,
+            at(anchor_x, *ox, 0),
+            at(anchor_y, *oy, 0),
+            color,
+        ));
     }
     if let Some((tile, ox, oy)) = &cached.fill {
-        let (x, y) = (anchor_x + ox, anchor_y + oy);
+        let (x, y) = (at(anchor_x, *ox, 0), at(anchor_y, *oy, 0));
         match karaoke_sweep {
             // Swept `\K`/`\kf`: not-yet-sung syllables are wholly secondary,
             // fully-sung wholly primary (both reuse the shared tile, no copy);
@@ -129,18 +141,15 @@ impl super::super::SoftwareBackend {
     /// (see [`BlurTileKey`]), skipping the font lookup and glyph-path build.
     /// Returns `true` on a hit. Eligible only when the cached bitmap is the
     /// layer's *entire* output: `\blur` is present and every effect is one the
-    /// bitmap captures (outline/shadow) or that the blur branch ignores
-    /// (bold/italic/rotation/scale/shear). A clip, opaque box, underline,
+    /// bitmap captures (outline, shadow, bold, italic, rotation, scale, shear). A clip, opaque box, underline,
     /// strikethrough, edge blur or karaoke draws beyond the tile, so those layers
     /// fall through to the full path.
     #[cfg(not(feature = "nostd"))]
     pub(in crate::backends::software) fn blur_tile_hit(
         &mut self,
         data: &crate::pipeline::TextData,
-        bold: bool,
-        italic: bool,
+        base_transform: Transform,
         baseline_y: f32,
-        ascent: f32,
     ) -> bool {
         use crate::pipeline::TextEffect;
 
@@ -161,89 +170,48 @@ impl super::super::SoftwareBackend {
             return false;
         }
 
-        // Extract blur/outline/shadow with the same first-match semantics the blur
-        // branch uses, so the key is identical to the one it stored.
         let Some(radius) = data.effects.iter().find_map(|e| match e {
             TextEffect::Blur { radius } => Some(*radius),
             _ => None,
         }) else {
             return false;
         };
-        let outline_info = data.effects.iter().find_map(|e| match e {
-            TextEffect::Outline {
-                color,
-                width_x,
-                width_y,
-            } => Some((*color, *width_x, *width_y)),
-            _ => None,
-        });
-        let shadow_info = data.effects.iter().find_map(|e| match e {
-            TextEffect::Shadow {
-                color,
-                x_offset,
-                y_offset,
-            } => Some((*color, *x_offset, *y_offset)),
-            _ => None,
-        });
-
-        let key = super::BlurTileKey {
-            text: data.text.clone(),
-            font: data.font_family.clone(),
-            size: data.font_size.to_bits(),
-            spacing: data.spacing.to_bits(),
-            bold,
-            italic,
-            blur: radius.to_bits(),
-            fill: data.color,
-            outline: outline_info.map(|(c, wx, wy)| (wx.to_bits(), wy.to_bits(), c)),
-            shadow: shadow_info.map(|(c, x, y)| (c, x.to_bits(), y.to_bits())),
-        };
+        let local = base_transform.post_translate(-data.x, -baseline_y);
+        let key = super::BlurTileKey::new(data, radius, data.color, local);
         let Some(tile) = super::BLUR_TILES.with(|c| c.borrow().get(&key).cloned()) else {
             return false;
         };
 
-        let blur_size = (radius * 3.0).ceil();
-        let x = data.x - blur_size;
-        // The tile's baseline sits at `blur_size + ascent` from its top (see the
-        // blur branch's temp_transform), so the tile origin lands here.
-        let y = baseline_y - blur_size - ascent;
+        self.show_blur_tile(&tile, data.x, baseline_y);
+        true
+    }
 
-        // Bitmap-list mode: the cached tile IS this layer's entire output (the
-        // eligibility check guarantees nothing else is drawn), so emit it directly
-        // as a positioned bitmap — skipping the full-frame scratch render + crop +
-        // clear the generic vector path would do. `composite_rgba` places it at
-        // integer (x, y); the sharp `\blur` path's nearest-filter `draw_pixmap`
-        // lands at the same rounded position, so this stays frame-equivalent.
-        let emitted = super::EMIT_SINK.with(|sink| {
+    /// Show a blurred picture at a layer's anchor: hand it over when bitmaps are
+    /// being collected, else draw it over the frame. Either way it lands on the
+    /// same whole pixel.
+    #[cfg(not(feature = "nostd"))]
+    pub(in crate::backends::software) fn show_blur_tile(
+        &mut self,
+        tile: &super::BlurTile,
+        anchor_x: f32,
+        baseline_y: f32,
+    ) {
+        use crate::backends::coverage::{composite_bitmap, RenderBitmap};
+
+        let bitmap = RenderBitmap::Rgba {
+            width: tile.width,
+            height: tile.height,
+            pixels: tile.data.clone(),
+            x: (anchor_x.round() as i32).saturating_add(tile.offset.0),
+            y: (baseline_y.round() as i32).saturating_add(tile.offset.1),
+        };
+        super::EMIT_SINK.with(|sink| {
             if let Some(list) = sink.borrow_mut().as_mut() {
-                list.push(crate::backends::coverage::RenderBitmap::Rgba {
-                    width: tile.width,
-                    height: tile.height,
-                    pixels: tile.data.clone(),
-                    x: x.round() as i32,
-                    y: y.round() as i32,
-                });
-                true
+                list.push(bitmap);
             } else {
-                false
+                let (width, height) = (self.pixmap.width(), self.pixmap.height());
+                composite_bitmap(self.pixmap.data_mut(), width, height, &bitmap);
             }
         });
-        if emitted {
-            return true;
-        }
-
-        // Composite mode: draw the tile into the frame at the same fractional
-        // origin and SourceOver blend the blur branch uses on a hit.
-        if let Some(pixref) =
-            tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
-        {
-            let paint = tiny_skia::PixmapPaint {
-                blend_mode: tiny_skia::BlendMode::SourceOver,
-                ..Default::default()
-            };
-            self.pixmap
-                .draw_pixmap(0, 0, pixref, &paint, Transform::from_translate(x, y), None);
-        }
-        true
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/cache/coverage.rs b/crates/ass-renderer/src/backends/software/cache/coverage.rs
index 7bab1dd..892f7f0 100644
--- a/crates/ass-renderer/src/backends/software/cache/coverage.rs
+++ b/crates/ass-renderer/src/backends/software/cache/coverage.rs
@@ -5,28 +5,32 @@ use tiny_skia::Transform;
 
 use crate::backends::geometry::{merge_transformed, shadow_delta, stroke_outline};
 
-/// Rasterize a layer's fill and outline coverage in local space.
+/// Rasterize a layer's fill and outline coverage in local space, or `None` when it
+/// is too large for a tile.
 #[cfg(not(feature = "nostd"))]
 fn rasterize_run_coverage(
     paths: &[tiny_skia::Path],
     local: Transform,
     outline_width: Option<(f32, f32)>,
-) -> super::CachedCoverage {
+) -> Option<super::CachedCoverage> {
     use crate::backends::coverage::CoverageTile;
 
     // Merge the per-glyph paths once; both the fill and the outline derive from
     // the same merged outline (previously merged twice, redundantly).
-    let merged = merge_transformed(paths, local);
-    let fill = merged.as_ref().and_then(CoverageTile::rasterize);
-    let outline = outline_width
-        .zip(merged.as_ref())
-        .and_then(|((wx, wy), merged)| {
-            // libass grows the glyph outward by the per-axis border (\xbord/\ybord);
-            // stroke_outline produces that (uniform for the symmetric case).
-            let outlined = stroke_outline(merged, wx, wy)?;
-            CoverageTile::rasterize(&outlined)
+    let Some(merged) = merge_transformed(paths, local) else {
+        return Some(super::CachedCoverage {
+            fill: None,
+            outline: None,
         });
-    super::CachedCoverage { fill, outline }
+    };
+    let fill = Some(CoverageTile::rasterize(&merged)?);
+    // libass grows the glyph outward by the per-axis border (\xbord/\ybord);
+    // stroke_outline produces that (uniform for the symmetric case).
+    let outline = match outline_width.and_then(|(wx, wy)| stroke_outline(&merged, wx, wy)) {
+        Some(outlined) => Some(CoverageTile::rasterize(&outlined)?),
+        None => None,
+    };
+    Some(super::CachedCoverage { fill, outline })
 }
 
 impl super::super::SoftwareBackend {
@@ -98,20 +102,24 @@ impl super::super::SoftwareBackend {
             return false;
         };
 
-        super::RUN_COVERAGE.with(|cache| {
-            if !cache.borrow().contains_key(&key) {
-                let cached =
-                    rasterize_run_coverage(paths, local, outline.map(|(_, wx, wy)| (wx, wy)));
+        let known = super::RUN_COVERAGE.with(|cache| cache.borrow().contains_key(&key));
+        if !known {
+            let widths = outline.map(|(_, wx, wy)| (wx, wy));
+            let Some(cached) = rasterize_run_coverage(paths, local, widths) else {
+                return false;
+            };
+            super::RUN_COVERAGE.with(|cache| {
                 let mut map = cache.borrow_mut();
                 // Bound memory: continuously geometry-animated layers produce a
                 // fresh key every frame, so drop the cache when it grows large
                 // rather than leak; geometry-static layers re-cache once after.
-                if map.len() >= 256 {
+                let held: usize = map.values().map(super::CachedCoverage::len).sum();
+                if map.len() >= 256 || held + cached.len() > super::MAX_COVERAGE_BYTES {
                     map.clear();
                 }
                 map.insert(key.clone(), cached);
-            }
-        });
+            });
+        }
 
         let shadow_paint = shadow.map(|(c, sx, sy)| (c, shadow_delta(local, sx, sy)));
         let anchor_x = data.x.round() as i32;
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index 7b4ab40..0ffa5bb 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -57,6 +57,67 @@ pub(super) struct BlurTileKey {
     pub(super) fill: [u8; 4],
     pub(super) outline: Option<(u32, u32, [u8; 4])>,
     pub(super) shadow: Option<([u8; 4], u32, u32)>,
+    pub(super) transform: [u32; 6],
+}
+
+#[cfg(not(feature = "nostd"))]
+impl BlurTileKey {
+    /// The key of a layer's blurred picture: `radius` of the blur, `fill` its
+    /// colour, `local` the transform of the glyphs about the layer's anchor.
+    pub(super) fn new(
+        data: &crate::pipeline::TextData,
+        radius: f32,
+        fill: [u8; 4],
+        local: Transform,
+    ) -> Self {
+        use crate::pipeline::TextEffect;
+
+        let mut key = Self {
+            text: data.text.clone(),
+            font: data.font_family.clone(),
+            size: data.font_size.to_bits(),
+            spacing: data.spacing.to_bits(),
+            bold: false,
+            italic: false,
+            blur: radius.to_bits(),
+            fill,
+            outline: None,
+            shadow: None,
+            transform: transform_bits(local),
+        };
+        // The first of each effect counts, as it does where the picture is drawn.
+        for effect in data.effects.iter().rev() {
+            match effect {
+                TextEffect::Bold => key.bold = true,
+                TextEffect::Italic => key.italic = true,
+                TextEffect::Outline {
+                    color,
+                    width_x,
+                    width_y,
+                } => key.outline = Some((width_x.to_bits(), width_y.to_bits(), *color)),
+                TextEffect::Shadow {
+                    color,
+                    x_offset,
+                    y_offset,
+                } => key.shadow = Some((*color, x_offset.to_bits(), y_offset.to_bits())),
+                _ => {}
+            }
+        }
+        key
+    }
+}
+
+/// The components of a transform, fit for a key.
+#[cfg(not(feature = "nostd"))]
+fn transform_bits(transform: Transform) -> [u32; 6] {
+    [
+        transform.sx.to_bits(),
+        transform.kx.to_bits(),
+        transform.ky.to_bits(),
+        transform.sy.to_bits(),
+        transform.tx.to_bits(),
+        transform.ty.to_bits(),
+    ]
 }
 
 /// A cached blurred-text bitmap: premultiplied RGBA. The pixels live in an `Arc`
@@ -66,6 +127,8 @@ pub(super) struct BlurTile {
     pub(super) data: Arc<Vec<u8>>,
     pub(super) width: u32,
     pub(super) height: u32,
+    /// Position of the top-left corner from the layer's rounded anchor.
+    pub(super) offset: (i32, i32),
 }
 
 /// Rasterized coverage tiles for one text layer, in position-independent local
@@ -79,6 +142,22 @@ struct CachedCoverage {
     outline: Option<(crate::backends::coverage::CoverageTile, i32, i32)>,
 }
 
+/// Bound on the coverage a thread keeps, in bytes.
+#[cfg(not(feature = "nostd"))]
+const MAX_COVERAGE_BYTES: usize = 1 << 28;
+
+#[cfg(not(feature = "nostd"))]
+impl CachedCoverage {
+    /// Bytes of coverage held.
+    fn len(&self) -> usize {
+        [&self.fill, &self.outline]
+            .into_iter()
+            .flatten()
+            .map(|(tile, _, _)| tile.data.len())
+            .sum()
+    }
+}
+
 // Per-thread cache of rasterized coverage tiles, shared by the hit and miss
 // paths and persistent across frames.
 #[cfg(not(feature = "nostd"))]
@@ -181,14 +260,7 @@ fn coverage_key(
         italic,
         outline: outline.map(|(_, wx, wy)| (wx.to_bits(), wy.to_bits())),
         shadow: shadow.map(|(_, x, y)| (x.to_bits(), y.to_bits())),
-        transform: [
-            local.sx.to_bits(),
-            local.kx.to_bits(),
-            local.ky.to_bits(),
-            local.sy.to_bits(),
-            local.tx.to_bits(),
-            local.ty.to_bits(),
-        ],
+        transform: transform_bits(local),
     };
     Some((key, outline, shadow, local, fill_color, karaoke_sweep))
 }
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 8988e56..75f7844 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -23,16 +23,34 @@ use crate::backends::geometry::merge_transformed;
 pub(super) fn text_vector_dirty_bbox(
     data: &crate::pipeline::TextData,
     paths: &[tiny_skia::Path],
+    decorations: &[tiny_skia::Path],
     base_transform: Transform,
 ) -> Option<(i32, i32, i32, i32)> {
     use crate::pipeline::TextEffect;
-    let bounds = merge_transformed(paths, base_transform)?.bounds();
+    let glyphs = merge_transformed(paths, base_transform)?.bounds();
+    let bounds = match merge_transformed(decorations, Transform::identity()) {
+        Some(lines) => {
+            let lines = lines.bounds();
+            tiny_skia::Rect::from_ltrb(
+                glyphs.left().min(lines.left()),
+                glyphs.top().min(lines.top()),
+                glyphs.right().max(lines.right()),
+                glyphs.bottom().max(lines.bottom()),
+            )?
+        }
+        None => glyphs,
+    };
     let (mut outline, mut shadow, mut blur) = (0.0_f32, 0.0_f32, 0.0_f32);
     for effect in &data.effects {
         match effect {
             TextEffect::Outline {
                 width_x, width_y, ..
             } => outline = outline.max(width_x.max(*width_y)),
+            TextEffect::OpaqueBox {
+                padding_x,
+                padding_y,
+                ..
+            } => outline = outline.max(padding_x.max(*padding_y)),
             TextEffect::Shadow {
                 x_offset, y_offset, ..
             } => shadow = shadow.max(x_offset.abs()).max(y_offset.abs()),
@@ -42,8 +60,9 @@ pub(super) fn text_vector_dirty_bbox(
             _ => {}
         }
     }
-    // Generous: box blur of radius r spreads ~r each side; ×4 leaves head-room.
-    let margin = 4.0 + outline * 2.0 + shadow + blur * 4.0;
+    // Generous: a Gaussian of `\blur` r spreads less than 3r each side, and a miter
+    // join reaches four widths out.
+    let margin = 4.0 + outline * 5.0 + shadow + blur * 4.0;
     Some((
         (bounds.left() - margin).floor() as i32,
         (bounds.top() - margin).floor() as i32,
@@ -83,8 +102,8 @@ pub(super) fn clear_region(pixmap: &mut Pixmap, region: (i32, i32, u32, u32)) {
     let h = pixmap.height() as i32;
     let x0 = rx.max(0);
     let y0 = ry.max(0);
-    let x1 = (rx + rw as i32).min(w);
-    let y1 = (ry + rh as i32).min(h);
+    let x1 = rx.saturating_add_unsigned(rw).min(w);
+    let y1 = ry.saturating_add_unsigned(rh).min(h);
     if x1 <= x0 || y1 <= y0 {
         return;
     }
@@ -108,7 +127,12 @@ pub(super) fn crop_pixmap(
     // Only scan the layer's (generous) dirty region — scanning the whole 4K frame
     // per vector layer is memory-bound and dominates otherwise.
     let (scan_x0, scan_y0, scan_x1, scan_y1) = match hint {
-        Some((x0, y0, x1, y1)) => (x0.max(0), y0.max(0), (x1 + 1).min(w), (y1 + 1).min(h)),
+        Some((x0, y0, x1, y1)) => (
+            x0.max(0),
+            y0.max(0),
+            x1.saturating_add(1).min(w),
+            y1.saturating_add(1).min(h),
+        ),
         None => (0, 0, w, h),
     };
     if scan_x1 <= scan_x0 || scan_y1 <= scan_y0 {
diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index 690330a..53dfefd 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -102,9 +102,11 @@ impl SoftwareBackend {
             std::mem::swap(&mut self.pixmap, &mut self.scratch);
             let result = self.composite_layer(layer, context);
             std::mem::swap(&mut self.pixmap, &mut self.scratch);
+            // Leave the sink empty even when the layer failed: the frames composited
+            // next on this thread must not end up in it.
+            let coverage = EMIT_SINK.with(|sink| sink.borrow_mut().take().unwrap_or_default());
             result?;
 
-            let coverage = EMIT_SINK.with(|sink| sink.borrow_mut().take().unwrap_or_default());
             if coverage.is_empty() {
                 // Vector / raster / drawing layer: it rendered into the scratch.
                 let hint = DIRTY_BBOX.with(|b| *b.borrow());
@@ -128,7 +130,6 @@ impl SoftwareBackend {
                 out.extend(coverage);
             }
         }
-        EMIT_SINK.with(|sink| *sink.borrow_mut() = None);
         Ok(out)
     }
 
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 8efffa3..3a54d40 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -1,159 +1,78 @@
 //! Blurred-text fill pass for the software text layer: rasterize shadow,
-//! outline and fill into a padded temp pixmap (or reuse a cached one), Gaussian
+//! outline and fill into a picture of their own (or reuse a cached one), Gaussian
 //! blur it, and composite at the baseline.
 
-use tiny_skia::{Pixmap, Transform};
-
-use crate::backends::blur::apply_gaussian_blur;
-use crate::backends::geometry::stroke_outline;
-use crate::pipeline::TextData;
+use crate::backends::blur::{blurred_fills, BLUR_TO_SIGMA};
+use crate::backends::geometry::{merge_transformed, stroke_outline};
+use crate::pipeline::{TextData, TextEffect};
 
 #[cfg(not(feature = "nostd"))]
 use super::super::cache::{BlurTile, BlurTileKey, BLUR_TILES};
+use super::fills::karaoke_color;
 use super::TextRun;
 
 impl super::super::SoftwareBackend {
-    /// Blurred-text pass: rasterize shadow + outline + fill into a padded temp
-    /// pixmap (or reuse a cached one), box-blur it, and composite at `baseline_y`.
+    /// Blurred-text pass: rasterize shadow + outline + fill into a picture (or
+    /// reuse a cached one), blur it, and composite at the layer's anchor.
     pub(super) fn draw_blurred_text(&mut self, data: &TextData, run: &TextRun, radius: f32) {
-        let shaped = &run.shaped;
-        let text_paint = &run.text_paint;
-        let clip_mask = run.clip_mask.as_ref();
-        let outline_info = run.outline_info;
-        let shadow_info = run.shadow_info;
-        let paths = &run.paths;
         let baseline_y = run.baseline_y;
+        let fill = run
+            .karaoke_info
+            .map_or(data.color, |karaoke| karaoke_color(data.color, karaoke));
 
-        // Create a temporary pixmap for blurred text. The padding must contain
-        // the full Gaussian kernel (~3*sigma) or the soft tail is clipped and
-        // the blurred glyph loses mass at larger radii.
-        let blur_size = (radius * 3.0).ceil() as u32;
-        let text_width = (shaped.width + blur_size as f32 * 2.0).ceil() as u32;
-        let text_height = (shaped.height + blur_size as f32 * 2.0).ceil() as u32;
-
-        // The blurred bitmap is a pure function of the glyph outlines, blur
-        // radius and baked colours (screen position is applied at composite),
-        // so identical blurred glyphs reuse one bitmap. A positional `\clip`
-        // makes the result position-dependent, so it is not cached.
-        let cache_key = clip_mask.is_none().then(|| BlurTileKey {
-            text: data.text.clone(),
-            font: data.font_family.clone(),
-            size: data.font_size.to_bits(),
-            spacing: data.spacing.to_bits(),
-            bold: run.bold,
-            italic: run.italic,
-            blur: radius.to_bits(),
-            fill: data.color,
-            outline: outline_info.map(|(c, wx, wy)| (wx.to_bits(), wy.to_bits(), c)),
-            shadow: shadow_info.map(|(c, x, y)| (c, x.to_bits(), y.to_bits())),
-        });
-
-        let cached = cache_key
-            .as_ref()
-            .and_then(|k| BLUR_TILES.with(|c| c.borrow().get(k).cloned()));
+        // Glyph paths about the layer's anchor, with rotation, scale and shear: the
+        // blurred picture depends on nothing else, so it serves any position.
+        let local = run.base_transform.post_translate(-data.x, -baseline_y);
+        let anchor = (data.x.round(), baseline_y.round());
+        let (left, top, right, bottom) = self.visible();
+        let visible = (
+            left - anchor.0,
+            top - anchor.1,
+            right - anchor.0,
+            bottom - anchor.1,
+        );
 
-        let tile = if cached.is_some() {
-            cached
-        } else if let Some(mut temp_pixmap) = Pixmap::new(text_width, text_height) {
-            temp_pixmap.fill(tiny_skia::Color::TRANSPARENT);
-
-            // Draw shadow (if any) then outline then text into the temp
-            // pixmap, so the box blur below softens shadow, outline and fill
-            // together. The shadow goes down first as it sits behind the rest.
-            //
-            // The glyph paths have their origin on the baseline and rise by
-            // `ascent` above it, so the baseline must sit `ascent` below the
-            // temp's top (plus the blur margin) — otherwise tall glyphs are
-            // clipped at the temp's top edge (only the lower part survives,
-            // the bug on large blurred text like the OP/ED song).
-            let temp_transform =
-                Transform::from_translate(blur_size as f32, blur_size as f32 + shaped.ascent);
-            if let Some((scolor, sx, sy)) = shadow_info {
-                let mut shadow_paint = tiny_skia::Paint {
-                    anti_alias: true,
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
-                };
-                shadow_paint.set_color_rgba8(scolor[0], scolor[1], scolor[2], scolor[3]);
-                let shadow_transform = temp_transform.pre_translate(sx, sy);
-                // The shadow is the silhouette of the FINAL glyph (fill +
-                // border), so when there is a border, stroke it into the
-                // shadow too. Without this a heavy `\bord` is absent from the
-                // shadow — e.g. the "Declassified" body box is a row of `b`s
-                // (BSOD block font) drawn shadow-only with `\bord12`; the 12px
-                // border is what merges them into a solid box, so a fill-only
-                // shadow collapsed it to bare glyph blobs.
-                if let Some((_, owx, owy)) = outline_info {
-                    for path in paths {
-                        if let Some(t) = path.clone().transform(shadow_transform) {
-                            if let Some(outlined) = stroke_outline(&t, owx, owy) {
-                                temp_pixmap.fill_path(
-                                    &outlined,
-                                    &shadow_paint,
-                                    tiny_skia::FillRule::Winding,
-                                    Transform::identity(),
-                                    None,
-                                );
-                            }
-                        }
-                    }
-                }
-                for path in paths {
-                    if let Some(transformed) = path.clone().transform(shadow_transform) {
-                        temp_pixmap.fill_path(
-                            &transformed,
-                            &shadow_paint,
-                            tiny_skia::FillRule::Winding,
-                            Transform::identity(),
-                            None,
-                        );
-                    }
-                }
-            }
-            if let Some((ocolor, owx, owy)) = outline_info {
-                let mut outline_paint = tiny_skia::Paint {
-                    anti_alias: true,
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
-                };
-                outline_paint.set_color_rgba8(ocolor[0], ocolor[1], ocolor[2], ocolor[3]);
-                for path in paths {
-                    if let Some(transformed) = path.clone().transform(temp_transform) {
-                        if let Some(outlined) = stroke_outline(&transformed, owx, owy) {
-                            temp_pixmap.fill_path(
-                                &outlined,
-                                &outline_paint,
-                                tiny_skia::FillRule::Winding,
-                                Transform::identity(),
-                                None,
-                            );
-                        }
+        let key = BlurTileKey::new(data, radius, fill, local);
+        let cached = if run.projected {
+            None
+        } else {
+            BLUR_TILES.with(|c| c.borrow().get(&key).cloned())
+        };
+        let tile = if let Some(tile) = cached {
+            tile
+        } else {
+            // The shadow goes down first as it sits behind the rest: the silhouette
+            // of the final glyph, fill and border.
+            let mut fills = Vec::new();
+            if let Some((color, x, y)) = run.shadow_info {
+                if let Some(merged) = merge_transformed(&run.paths, local.pre_translate(x, y)) {
+                    if let Some((_, wx, wy)) = run.outline_info {
+                        fills.extend(stroke_outline(&merged, wx, wy).map(|p| (p, color)));
                     }
+                    fills.push((merged, color));
                 }
             }
-            for path in paths {
-                if let Some(transformed) = path.clone().transform(temp_transform) {
-                    temp_pixmap.fill_path(
-                        &transformed,
-                        text_paint,
-                        tiny_skia::FillRule::Winding,
-                        Transform::identity(),
-                        clip_mask,
-                    );
+            if let Some(merged) = merge_transformed(&run.paths, local) {
+                if let Some((color, wx, wy)) = run.outline_info {
+                    fills.extend(stroke_outline(&merged, wx, wy).map(|p| (p, color)));
                 }
+                fills.push((merged, fill));
             }
 
-            // `radius` is the screen-pixel \blur (scaled by blur_scale in
-            // the pipeline); map it to a Gaussian std-dev via libass's
-            // blur_radius_scale = 2/sqrt(ln 256).
-            apply_gaussian_blur(&mut temp_pixmap, radius * (2.0 / 256.0_f32.ln().sqrt()));
-
+            // `radius` is the screen-pixel \blur (scaled by blur_scale in the
+            // pipeline).
+            let Some((pixmap, x, y, whole)) =
+                blurred_fills(&fills, radius * BLUR_TO_SIGMA, visible)
+            else {
+                return;
+            };
             let tile = std::sync::Arc::new(BlurTile {
-                data: std::sync::Arc::new(temp_pixmap.data().to_vec()),
-                width: text_width,
-                height: text_height,
+                width: pixmap.width(),
+                height: pixmap.height(),
+                offset: (x, y),
+                data: std::sync::Arc::new(pixmap.take()),
             });
-            if let Some(key) = cache_key {
+            if whole && !run.projected {
                 BLUR_TILES.with(|c| {
                     let mut map = c.borrow_mut();
                     // Bound memory: drop the cache wholesale if it grows large
@@ -164,32 +83,27 @@ impl super::super::SoftwareBackend {
                     map.insert(key, tile.clone());
                 });
             }
-            Some(tile)
-        } else {
-            None
+            tile
         };
 
-        // Draw the (cached or freshly rendered) blurred bitmap. Use baseline_y
-        // (the same vertical origin as the sharp path) so the blurred glyphs
-        // land on the text rather than floating above it as a halo.
-        if let Some(tile) = tile {
-            if let Some(pixref) =
-                tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
-            {
-                // The baseline sits at `blur_size + ascent` inside the tile
-                // (see temp_transform), so offset the composite to land that
-                // baseline back on `baseline_y`.
-                let blend_transform = Transform::from_translate(
-                    data.x - blur_size as f32,
-                    baseline_y - blur_size as f32 - shaped.ascent,
-                );
-                let paint = tiny_skia::PixmapPaint {
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
-                };
-                self.pixmap
-                    .draw_pixmap(0, 0, pixref, &paint, blend_transform, None);
-            }
+        // A layer with more to draw than the picture is drawn onto the frame, where
+        // its other parts are.
+        let alone = run.clip_mask.is_none()
+            && run.decorations.is_empty()
+            && !data.effects.iter().any(|e| {
+                matches!(
+                    e,
+                    TextEffect::OpaqueBox { .. } | TextEffect::EdgeBlur { .. }
+                )
+            });
+        if alone {
+            self.show_blur_tile(&tile, data.x, baseline_y);
+        } else if let Some(picture) =
+            tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
+        {
+            let x = (anchor.0 as i32).saturating_add(tile.offset.0);
+            let y = (anchor.1 as i32).saturating_add(tile.offset.1);
+            self.blit(picture, (x, y), run.clip_mask.as_ref());
         }
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 76d6304..f3fd93d 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -1,9 +1,9 @@
 //! Decoration passes for the software text layer: sharp shadow, opaque box,
 //! outline (with optional `\be` edge blur) and underline/strikethrough.
 
-use tiny_skia::{Pixmap, Transform};
+use tiny_skia::Transform;
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::{blurred_fills, BLUR_TO_SIGMA};
 use crate::backends::geometry::{merge_transformed, stroke_outline};
 use crate::pipeline::TextData;
 
@@ -118,71 +118,18 @@ impl super::super::SoftwareBackend {
                 outline_paint.anti_alias = true;
                 outline_paint.blend_mode = tiny_skia::BlendMode::SourceOver;
 
-                // `width` (the larger axis) sizes the temp pixmap and offsets; the
-                // stroke itself grows per-axis via stroke_outline.
-                let width = width_x.max(*width_y);
-
-                // If edge blur is needed, render outline to temporary pixmap first
+                // If edge blur is needed, render the outline to a picture of its own
+                // first. Edge softening (\be): a gentler 1/sqrt(ln 256) std-dev
+                // keeps it a thin outline blur, not a halo.
                 if let Some(blur_radius) = run.edge_blur_radius {
-                    if blur_radius > 0.0 {
-                        let blur_size = (blur_radius * 3.0).ceil() as u32;
-                        let outline_width =
-                            (run.shaped.width + blur_size as f32 * 2.0 + width * 2.0).ceil() as u32;
-                        let outline_height =
-                            (run.shaped.height + blur_size as f32 * 2.0 + width * 2.0).ceil()
-                                as u32;
-
-                        if let Some(mut temp_pixmap) = Pixmap::new(outline_width, outline_height) {
-                            temp_pixmap.fill(tiny_skia::Color::TRANSPARENT);
-
-                            // Draw outline to temporary pixmap
-                            let temp_transform = Transform::from_translate(
-                                blur_size as f32 + width,
-                                blur_size as f32 + width,
-                            );
-
-                            for path in &run.paths {
-                                if let Some(transformed) = path.clone().transform(temp_transform) {
-                                    if let Some(outlined_path) =
-                                        stroke_outline(&transformed, *width_x, *width_y)
-                                    {
-                                        temp_pixmap.fill_path(
-                                            &outlined_path,
-                                            &outline_paint,
-                                            tiny_skia::FillRule::Winding,
-                                            Transform::identity(),
-                                            None,
-                                        );
-                                    }
-                                }
-                            }
-
-                            // Edge softening (\be): a gentler 1/sqrt(ln 256)
-                            // std-dev keeps it a thin outline blur, not a halo.
-                            apply_gaussian_blur(
-                                &mut temp_pixmap,
-                                blur_radius * (1.0 / 256.0_f32.ln().sqrt()),
-                            );
-
-                            // Draw blurred outline to main pixmap
-                            let blend_transform = run.base_transform.pre_translate(
-                                -(blur_size as f32) - width,
-                                -(blur_size as f32) - width,
-                            );
-
-                            let paint = tiny_skia::PixmapPaint {
-                                blend_mode: tiny_skia::BlendMode::SourceOver,
-                                ..Default::default()
-                            };
-
-                            self.pixmap.draw_pixmap(
-                                0,
-                                0,
-                                temp_pixmap.as_ref(),
-                                &paint,
-                                blend_transform,
-                                run.clip_mask.as_ref(),
-                            );
+                    let outlined = merge_transformed(&run.paths, run.base_transform)
+                        .and_then(|merged| stroke_outline(&merged, *width_x, *width_y));
+                    if let Some(outlined) = outlined {
+                        let sigma = blur_radius * BLUR_TO_SIGMA * 0.5;
+                        let fills = [(outlined, *color)];
+                        if let Some((tile, x, y, _)) = blurred_fills(&fills, sigma, self.visible())
+                        {
+                            self.blit(tile.as_ref(), (x, y), run.clip_mask.as_ref());
                         }
                     }
                 } else if run.blur_radius.is_none() {
@@ -207,63 +154,16 @@ impl super::super::SoftwareBackend {
         }
     }
 
-    /// Underline / strikethrough decoration pass, positioned from the baseline
-    /// using libass's offsets and stroked in the primary colour.
-    pub(super) fn draw_text_decorations(&mut self, data: &TextData, run: &TextRun) {
-        let shaped = &run.shaped;
-        let baseline_y = run.baseline_y;
-        let text_paint = &run.text_paint;
-        let clip_mask = run.clip_mask.as_ref();
-
-        // Draw underline if present
-        if run.underline {
-            // Position underline according to libass formula: baseline + descent/2
-            // baseline_y is already calculated as data.y + (*shaped).baseline
-            // descent is negative, so we need to subtract half of its absolute value
-            let underline_y = baseline_y - shaped.descent / 2.0;
-            let mut builder = tiny_skia::PathBuilder::new();
-            builder.move_to(data.x, underline_y);
-            builder.line_to(data.x + shaped.width, underline_y);
-
-            if let Some(underline_path) = builder.finish() {
-                let stroke = tiny_skia::Stroke {
-                    width: data.font_size * 0.08,
-                    line_cap: tiny_skia::LineCap::Round,
-                    ..Default::default()
-                };
-                self.pixmap.stroke_path(
-                    &underline_path,
-                    text_paint,
-                    &stroke,
-                    Transform::identity(),
-                    clip_mask,
-                );
-            }
-        }
-
-        // Draw strikethrough if present
-        if run.strikethrough {
-            // Position strikethrough according to libass formula: baseline - ascent/3
-            // baseline_y is already calculated as data.y + (*shaped).baseline
-            let strike_y = baseline_y - shaped.ascent / 3.0;
-            let mut builder = tiny_skia::PathBuilder::new();
-            builder.move_to(data.x, strike_y);
-            builder.line_to(data.x + shaped.width, strike_y);
-
-            if let Some(strike_path) = builder.finish() {
-                let stroke = tiny_skia::Stroke {
-                    width: data.font_size * 0.06,
-                    line_cap: tiny_skia::LineCap::Round,
-                    ..Default::default()
-                };
-                self.pixmap.stroke_path(
-                    &strike_path,
-                    text_paint,
-                    &stroke,
-                    Transform::identity(),
-                    clip_mask,
-                );
-            }
+    /// Underline / strikethrough decoration pass, in the primary colour.
+    pub(super) fn draw_text_decorations(&mut self, run: &TextRun) {
+        for line in &run.decorations {
+            self.pixmap.fill_path(
+                line,
+                &run.text_paint,
+                tiny_skia::FillRule::Winding,
+                Transform::identity(),
+                run.clip_mask.as_ref(),
+            );
         }
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/text/fills.rs b/crates/ass-renderer/src/backends/software/text/fills.rs
index 092deb5..753c7c9 100644
--- a/crates/ass-renderer/src/backends/software/text/fills.rs
+++ b/crates/ass-renderer/src/backends/software/text/fills.rs
@@ -7,6 +7,31 @@ use crate::pipeline::TextData;
 
 use super::TextRun;
 
+/// The one colour of a karaoke syllable filled as a whole: the secondary colour
+/// until it is sung and the primary from then on; mid-sweep a blend of the two.
+pub(super) fn karaoke_color(primary: [u8; 4], karaoke: (f32, u8, [u8; 4])) -> [u8; 4] {
+    let (progress, style, secondary) = karaoke;
+    if style == 0 {
+        if progress > 0.0 {
+            primary
+        } else {
+            secondary
+        }
+    } else if progress >= 1.0 {
+        primary
+    } else if progress <= 0.0 {
+        secondary
+    } else {
+        let lerp = |s: u8, e: u8| (s as f32 * (1.0 - progress) + e as f32 * progress) as u8;
+        [
+            lerp(secondary[0], primary[0]),
+            lerp(secondary[1], primary[1]),
+            lerp(secondary[2], primary[2]),
+            primary[3],
+        ]
+    }
+}
+
 impl super::super::SoftwareBackend {
     /// Karaoke-fill pass: a left-to-right sweep (`\kf`/`\K`) draws the secondary
     /// colour across the syllable with the already-sung left portion in primary;
@@ -108,25 +133,7 @@ impl super::super::SoftwareBackend {
             // Single-colour fill: binary \k, a finished/not-started sweep, or a
             // sweep under an active \clip (approximated by a secondary->primary
             // colour blend).
-            let c = if karaoke_style == 0 {
-                if progress > 0.0 {
-                    primary
-                } else {
-                    secondary
-                }
-            } else if progress >= 1.0 {
-                primary
-            } else if progress <= 0.0 {
-                secondary
-            } else {
-                let lerp = |s: u8, e: u8| (s as f32 * (1.0 - progress) + e as f32 * progress) as u8;
-                [
-                    lerp(secondary[0], primary[0]),
-                    lerp(secondary[1], primary[1]),
-                    lerp(secondary[2], primary[2]),
-                    primary[3],
-                ]
-            };
+            let c = karaoke_color(primary, karaoke);
             paint.set_color_rgba8(c[0], c[1], c[2], c[3]);
             for path in paths {
                 if let Some(t) = path.clone().transform(text_transform) {
diff --git a/crates/ass-renderer/src/backends/software/text/mod.rs b/crates/ass-renderer/src/backends/software/text/mod.rs
index 8de6d1e..98890f2 100644
--- a/crates/ass-renderer/src/backends/software/text/mod.rs
+++ b/crates/ass-renderer/src/backends/software/text/mod.rs
@@ -29,6 +29,8 @@ struct TextRun {
     paths: Vec<tiny_skia::Path>,
     /// Base affine transform baking translation, rotation, scale and shear.
     base_transform: Transform,
+    /// Whether the paths are in screen space already, projected by `\frx`/`\fry`.
+    projected: bool,
     /// Baseline Y (`data.y + shaped.baseline`).
     baseline_y: f32,
     /// Shaped run metrics (width/height/ascent/descent/baseline).
@@ -49,10 +51,8 @@ struct TextRun {
     merged_base: Option<tiny_skia::Path>,
     /// Fill paint in the primary colour.
     text_paint: tiny_skia::Paint<'static>,
-    bold: bool,
-    italic: bool,
-    underline: bool,
-    strikethrough: bool,
+    /// Underline and strikeout, in screen space.
+    decorations: Vec<tiny_skia::Path>,
 }
 
 impl super::SoftwareBackend {
@@ -82,7 +82,7 @@ impl super::SoftwareBackend {
             self.draw_plain_text(&run);
         }
 
-        self.draw_text_decorations(data, &run);
+        self.draw_text_decorations(&run);
 
         Ok(())
     }
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 6a719d8..259bf29 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -156,7 +156,7 @@ impl super::super::SoftwareBackend {
         // so this is bit-identical — it just avoids the per-call font parse and
         // outline build, the dominant cost of the recurring blurred credit glyphs.
         #[cfg(not(feature = "nostd"))]
-        if rot3d.is_none() && self.blur_tile_hit(data, bold, italic, baseline_y, shaped.ascent) {
+        if rot3d.is_none() && self.blur_tile_hit(data, base_transform, baseline_y) {
             return Ok(None);
         }
 
@@ -180,18 +180,49 @@ impl super::super::SoftwareBackend {
         // transform once and switch to an identity base transform, so the vector
         // fills below operate on the already-projected screen-space outlines. The
         // perspective camera distance is libass's 20000 in 1/64-px units.
-        #[cfg(not(feature = "nostd"))]
-        let (paths, base_transform) = if let Some((frx, fry, lcx, lcy)) = rot3d {
-            let mut center = [tiny_skia::Point::from_xy(lcx, lcy)];
+        let mut center = [tiny_skia::Point::zero()];
+        if let Some((_, _, lcx, lcy)) = rot3d {
+            center[0] = tiny_skia::Point::from_xy(lcx, lcy);
             base_transform.map_points(&mut center);
-            let dist = 20000.0 / 64.0;
-            let projected: Vec<tiny_skia::Path> = paths
-                .iter()
-                .filter_map(|p| {
-                    let screen = p.clone().transform(base_transform)?;
+        }
+        let to_screen = |path: tiny_skia::Path| -> Option<tiny_skia::Path> {
+            let screen = path.transform(base_transform)?;
+            match rot3d {
+                Some((frx, fry, _, _)) => {
+                    let dist = 20000.0 / 64.0;
                     project_path_3d(&screen, frx, fry, center[0].x, center[0].y, dist)
-                })
-                .collect();
+                }
+                None => Some(screen),
+            }
+        };
+
+        // Underline and strikeout go where the glyphs go. Their offsets are libass's:
+        // half the descent below the baseline (the descent is negative), a third of
+        // the ascent above it.
+        let mut lines = Vec::new();
+        if underline {
+            lines.push((-shaped.descent / 2.0, data.font_size * 0.08));
+        }
+        if strikethrough {
+            lines.push((-shaped.ascent / 3.0, data.font_size * 0.06));
+        }
+        let decorations: Vec<tiny_skia::Path> = lines
+            .into_iter()
+            .filter_map(|(y, width)| {
+                let mut builder = tiny_skia::PathBuilder::new();
+                builder.move_to(0.0, y);
+                builder.line_to(shaped.width, y);
+                let stroke = tiny_skia::Stroke {
+                    width,
+                    line_cap: tiny_skia::LineCap::Round,
+                    ..Default::default()
+                };
+                to_screen(builder.finish()?.stroke(&stroke, 1.0)?)
+            })
+            .collect();
+
+        let (paths, base_transform) = if rot3d.is_some() {
+            let projected = paths.into_iter().filter_map(&to_screen).collect();
             (projected, Transform::identity())
         } else {
             (paths, base_transform)
@@ -210,57 +241,22 @@ impl super::super::SoftwareBackend {
         // Vector path (blur / swept karaoke / clip / opaque box / under-strike).
         // Record a generous dirty bbox so a bitmap-list crop scans only this region.
         #[cfg(not(feature = "nostd"))]
-        if let Some(bbox) = text_vector_dirty_bbox(data, &paths, base_transform) {
+        if let Some(bbox) = text_vector_dirty_bbox(data, &paths, &decorations, base_transform) {
             note_dirty_bbox(bbox);
         }
 
         // Create clip mask if needed
-        let clip_mask = data.effects.iter().find_map(|e| {
-            if let crate::pipeline::TextEffect::Clip {
+        let clip = data.effects.iter().find_map(|e| match e {
+            crate::pipeline::TextEffect::Clip {
                 x1,
                 y1,
                 x2,
                 y2,
                 inverse,
-            } = e
-            {
-                // Create a mask for clipping
-                let width = self.pixmap.width();
-                let height = self.pixmap.height();
-
-                if let Some(mut mask) = tiny_skia::Mask::new(width, height) {
-                    let mut builder = tiny_skia::PathBuilder::new();
-                    // The clip rectangle itself.
-                    builder.move_to(*x1, *y1);
-                    builder.line_to(*x2, *y1);
-                    builder.line_to(*x2, *y2);
-                    builder.line_to(*x1, *y2);
-                    builder.close();
-
-                    // For \iclip, also add a full-canvas rectangle and use the
-                    // even-odd rule so coverage is left *outside* the clip rect
-                    // (the rect ends up with winding count 2 => uncovered).
-                    let fill_rule = if *inverse {
-                        builder.move_to(0.0, 0.0);
-                        builder.line_to(width as f32, 0.0);
-                        builder.line_to(width as f32, height as f32);
-                        builder.line_to(0.0, height as f32);
-                        builder.close();
-                        tiny_skia::FillRule::EvenOdd
-                    } else {
-                        tiny_skia::FillRule::Winding
-                    };
-
-                    if let Some(clip_path) = builder.finish() {
-                        mask.fill_path(&clip_path, fill_rule, true, Transform::identity());
-                        return Some(mask);
-                    }
-                }
-                None
-            } else {
-                None
-            }
+            } => Some((*x1, *y1, *x2, *y2, *inverse)),
+            _ => None,
         });
+        let clip_mask = self.clip_mask(clip);
 
         // \blur radius, outline and shadow, detected up front. When \blur is
         // active the outline and shadow are rendered into the blur temp (below)
@@ -339,6 +335,7 @@ impl super::super::SoftwareBackend {
         Ok(Some(TextRun {
             paths,
             base_transform,
+            projected: rot3d.is_some(),
             baseline_y,
             shaped,
             clip_mask,
@@ -349,10 +346,7 @@ impl super::super::SoftwareBackend {
             karaoke_info,
             merged_base,
             text_paint,
-            bold,
-            italic,
-            underline,
-            strikethrough,
+            decorations,
         }))
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 8496b88..1e0e772 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -6,7 +6,7 @@
 
 use tiny_skia::{Pixmap, Transform};
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::{blurred_fills, BLUR_TO_SIGMA};
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
@@ -17,9 +17,12 @@ impl super::SoftwareBackend {
         &mut self,
         data: &crate::pipeline::RasterData,
     ) -> Result<(), RenderError> {
-        if data.pixels.len() != (data.width * data.height * 4) as usize {
+        let expected = (data.width as usize)
+            .saturating_mul(data.height as usize)
+            .saturating_mul(4);
+        if data.pixels.len() != expected {
             return Err(RenderError::InvalidBufferSize {
-                expected: (data.width * data.height * 4) as usize,
+                expected,
                 actual: data.pixels.len(),
             });
         }
@@ -58,7 +61,7 @@ impl super::SoftwareBackend {
         // drawing — the dominant cost on sparkle-heavy frames (dozens-to-hundreds
         // of `\p` drawings, each previously a full-frame scan + clear).
         let b = path.bounds();
-        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width) + data.blur * 3.0;
+        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width * 2.0) + data.blur * 3.0;
         note_dirty_bbox((
             (b.left() - margin).floor() as i32,
             (b.top() - margin).floor() as i32,
@@ -66,7 +69,7 @@ impl super::SoftwareBackend {
             (b.bottom() + margin).ceil() as i32,
         ));
 
-        let clip_mask = self.vector_clip_mask(data.clip);
+        let clip_mask = self.clip_mask(data.clip);
 
         let mut paint = tiny_skia::Paint::default();
         // Ensure we're setting color with proper alpha handling
@@ -111,50 +114,63 @@ impl super::SoftwareBackend {
         // bitmap and applies `\clip` afterwards, so clipped gradient strips tile
         // seamlessly and dust/sparkle shapes spread into soft, dim glows instead
         // of hard bright dots.
-        let pad = (data.blur * 3.0).ceil().max(1.0);
-        let tw = ((b.width() + pad * 2.0).ceil() as u32).max(1);
-        let th = ((b.height() + pad * 2.0).ceil() as u32).max(1);
-        let Some(mut temp) = Pixmap::new(tw, th) else {
-            return Ok(());
-        };
-        let off = Transform::from_translate(pad - b.left(), pad - b.top());
-        temp.fill_path(path, &paint, tiny_skia::FillRule::Winding, off, None);
+        let mut fills = vec![(path.clone(), data.color)];
         if let Some(stroke) = &data.stroke {
-            let mut sp = tiny_skia::Paint::default();
-            sp.set_color_rgba8(
-                stroke.color[0],
-                stroke.color[1],
-                stroke.color[2],
-                stroke.color[3],
-            );
-            sp.anti_alias = true;
             let sk_stroke = tiny_skia::Stroke {
                 width: stroke.width,
                 ..Default::default()
             };
-            temp.stroke_path(path, &sp, &sk_stroke, off, None);
+            if let Some(outline) = tiny_skia::PathStroker::new().stroke(path, &sk_stroke, 1.0) {
+                fills.push((outline, stroke.color));
+            }
+        }
+        let sigma = data.blur * BLUR_TO_SIGMA;
+        if let Some((tile, x, y, _)) = blurred_fills(&fills, sigma, self.visible()) {
+            self.blit(tile.as_ref(), (x, y), clip_mask.as_ref());
         }
-        apply_gaussian_blur(&mut temp, data.blur * (2.0 / 256.0_f32.ln().sqrt()));
-        let blend = Transform::from_translate(b.left() - pad, b.top() - pad);
-        self.pixmap.draw_pixmap(
-            0,
-            0,
-            temp.as_ref(),
-            &tiny_skia::PixmapPaint {
-                blend_mode: tiny_skia::BlendMode::SourceOver,
-                ..Default::default()
-            },
-            blend,
-            clip_mask.as_ref(),
-        );
 
         Ok(())
     }
 
-    /// Build a full-canvas clip mask for a drawing's rectangular `\clip` /
-    /// `\iclip` (coordinates already in render space). Mirrors the text clip in
-    /// [`Self::composite_layer`]; `None` leaves the drawing unclipped.
-    fn vector_clip_mask(
+    /// The part of the plane a frame shows: left, top, right, bottom.
+    pub(super) fn visible(&self) -> (f32, f32, f32, f32) {
+        let (width, height) = (self.pixmap.width(), self.pixmap.height());
+        (0.0, 0.0, width as f32, height as f32)
+    }
+
+    /// Draw a premultiplied picture over the frame with its corner at `position`.
+    pub(super) fn blit(
+        &mut self,
+        picture: tiny_skia::PixmapRef,
+        position: (i32, i32),
+        mask: Option<&tiny_skia::Mask>,
+    ) {
+        let (x, y) = (i64::from(position.0), i64::from(position.1));
+        if x >= i64::from(self.pixmap.width())
+            || y >= i64::from(self.pixmap.height())
+            || x + i64::from(picture.width()) <= 0
+            || y + i64::from(picture.height()) <= 0
+        {
+            return;
+        }
+        let paint = tiny_skia::PixmapPaint {
+            blend_mode: tiny_skia::BlendMode::SourceOver,
+            ..Default::default()
+        };
+        self.pixmap.draw_pixmap(
+            position.0,
+            position.1,
+            picture,
+            &paint,
+            Transform::identity(),
+            mask,
+        );
+    }
+
+    /// Build a full-canvas clip mask for a rectangular `\clip` / `\iclip`
+    /// (coordinates already in render space), the same for text and drawings;
+    /// `None` leaves the layer unclipped.
+    pub(super) fn clip_mask(
         &self,
         clip: Option<(f32, f32, f32, f32, bool)>,
     ) -> Option<tiny_skia::Mask> {
@@ -178,7 +194,6 @@ impl super::SoftwareBackend {
         } else {
             tiny_skia::FillRule::Winding
         };
-        let clip_path = builder.finish()?;
         // Rasterize the clip rect WITHOUT anti-aliasing. Gradient/banner effects
         // tile many abutting 2px-wide `\clip` strips of the same shape; an
         // anti-aliased clip gives each strip partial coverage at the shared
@@ -186,7 +201,9 @@ impl super::SoftwareBackend {
         // 0.78, not 1.0) — leaving a dark seam at every strip edge. A binary mask
         // assigns each pixel to exactly one strip (pixel-center test), so abutting
         // strips tile into a solid fill like libass.
-        mask.fill_path(&clip_path, fill_rule, false, Transform::identity());
+        if let Some(clip_path) = builder.finish() {
+            mask.fill_path(&clip_path, fill_rule, false, Transform::identity());
+        }
         Some(mask)
     }
 }
-- 
2.43.0


From dcee9f382a802f17c9b347538182949d33048fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 46/94] fix: a clip lets through exactly what the text paints
 without it

---
 .../src/backends/software/cache/blur_tile.rs  |  1 +
 .../src/backends/software/cache/mod.rs        |  9 ++--
 .../src/backends/software/text/blur.rs        |  5 +-
 .../src/backends/software/text/decorations.rs | 12 ++---
 .../src/backends/software/text/fills.rs       | 16 +++---
 .../src/backends/software/text/mod.rs         | 50 +++++++++++++++++--
 .../src/backends/software/text/prepare.rs     | 18 +------
 7 files changed, 70 insertions(+), 41 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 0dc4cc5..2ce62bc 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -164,6 +164,7 @@ impl super::super::SoftwareBackend {
                     | TextEffect::Rotation { .. }
                     | TextEffect::Scale { .. }
                     | TextEffect::Shear { .. }
+                    | TextEffect::Clip { .. }
             )
         });
         if !eligible {
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index 0ffa5bb..c189bf0 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -185,8 +185,8 @@ std::thread_local! {
 
 /// Build the coverage cache key (and extract the outline/shadow paints and the
 /// position-independent transform) for a text layer, or `None` if the layer uses
-/// an effect the coverage path does not handle (blur, edge blur, karaoke, clip,
-/// opaque box, underline, strikethrough) and must take the full vector path.
+/// an effect the coverage path does not handle (blur, edge blur, opaque
+/// box, underline, strikethrough) and must take the full vector path.
 #[cfg(not(feature = "nostd"))]
 #[allow(clippy::type_complexity)]
 fn coverage_key(
@@ -228,7 +228,10 @@ fn coverage_key(
             } => shadow = Some((*color, *x_offset, *y_offset)),
             TextEffect::Bold => bold = true,
             TextEffect::Italic => italic = true,
-            TextEffect::Rotation { .. } | TextEffect::Scale { .. } | TextEffect::Shear { .. } => {}
+            TextEffect::Rotation { .. }
+            | TextEffect::Scale { .. }
+            | TextEffect::Shear { .. }
+            | TextEffect::Clip { .. } => {}
             TextEffect::Karaoke {
                 progress,
                 style,
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 3a54d40..e232def 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -88,8 +88,7 @@ impl super::super::SoftwareBackend {
 
         // A layer with more to draw than the picture is drawn onto the frame, where
         // its other parts are.
-        let alone = run.clip_mask.is_none()
-            && run.decorations.is_empty()
+        let alone = run.decorations.is_empty()
             && !data.effects.iter().any(|e| {
                 matches!(
                     e,
@@ -103,7 +102,7 @@ impl super::super::SoftwareBackend {
         {
             let x = (anchor.0 as i32).saturating_add(tile.offset.0);
             let y = (anchor.1 as i32).saturating_add(tile.offset.1);
-            self.blit(picture, (x, y), run.clip_mask.as_ref());
+            self.blit(picture, (x, y), None);
         }
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index f3fd93d..ddb5b62 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -36,7 +36,7 @@ impl super::super::SoftwareBackend {
                                 &shadow_paint,
                                 tiny_skia::FillRule::Winding,
                                 Transform::identity(),
-                                run.clip_mask.as_ref(),
+                                None,
                             );
                         }
                     }
@@ -45,7 +45,7 @@ impl super::super::SoftwareBackend {
                         &shadow_paint,
                         tiny_skia::FillRule::Winding,
                         Transform::identity(),
-                        run.clip_mask.as_ref(),
+                        None,
                     );
                 }
             }
@@ -93,7 +93,7 @@ impl super::super::SoftwareBackend {
                             rect,
                             &box_paint,
                             Transform::identity(),
-                            run.clip_mask.as_ref(),
+                            None,
                         );
                     }
                 }
@@ -129,7 +129,7 @@ impl super::super::SoftwareBackend {
                         let fills = [(outlined, *color)];
                         if let Some((tile, x, y, _)) = blurred_fills(&fills, sigma, self.visible())
                         {
-                            self.blit(tile.as_ref(), (x, y), run.clip_mask.as_ref());
+                            self.blit(tile.as_ref(), (x, y), None);
                         }
                     }
                 } else if run.blur_radius.is_none() {
@@ -145,7 +145,7 @@ impl super::super::SoftwareBackend {
                                 &outline_paint,
                                 tiny_skia::FillRule::Winding,
                                 Transform::identity(),
-                                run.clip_mask.as_ref(),
+                                None,
                             );
                         }
                     }
@@ -162,7 +162,7 @@ impl super::super::SoftwareBackend {
                 &run.text_paint,
                 tiny_skia::FillRule::Winding,
                 Transform::identity(),
-                run.clip_mask.as_ref(),
+                None,
             );
         }
     }
diff --git a/crates/ass-renderer/src/backends/software/text/fills.rs b/crates/ass-renderer/src/backends/software/text/fills.rs
index 753c7c9..0af3ed0 100644
--- a/crates/ass-renderer/src/backends/software/text/fills.rs
+++ b/crates/ass-renderer/src/backends/software/text/fills.rs
@@ -35,7 +35,7 @@ pub(super) fn karaoke_color(primary: [u8; 4], karaoke: (f32, u8, [u8; 4])) -> [u
 impl super::super::SoftwareBackend {
     /// Karaoke-fill pass: a left-to-right sweep (`\kf`/`\K`) draws the secondary
     /// colour across the syllable with the already-sung left portion in primary;
-    /// a binary `\k` (or a sweep under a `\clip`) fills a single blended colour.
+    /// a binary `\k` fills a single colour.
     pub(super) fn draw_karaoke_text(
         &mut self,
         data: &TextData,
@@ -44,7 +44,6 @@ impl super::super::SoftwareBackend {
     ) {
         let (progress, karaoke_style, karaoke_secondary) = karaoke;
         let paths = &run.paths;
-        let clip_mask = run.clip_mask.as_ref();
 
         // ASS karaoke colours: a syllable is the secondary colour until it is
         // "sung", then the primary colour (the layer's `data.color`).
@@ -61,10 +60,9 @@ impl super::super::SoftwareBackend {
         let text_transform = run.base_transform;
 
         // For \kf/\K mid-syllable, compute the left-to-right sweep boundary
-        // from the glyph bounds. (Skipped when a \clip is active — combining
-        // the sweep with an arbitrary clip mask is left to the colour blend.)
+        // from the glyph bounds.
         let sweeping = karaoke_style != 0 && progress > 0.0 && progress < 1.0;
-        let sweep_bounds = if sweeping && clip_mask.is_none() {
+        let sweep_bounds = if sweeping {
             let mut b: Option<tiny_skia::Rect> = None;
             for path in paths {
                 if let Some(t) = path.clone().transform(text_transform) {
@@ -130,9 +128,7 @@ impl super::super::SoftwareBackend {
                 }
             }
         } else {
-            // Single-colour fill: binary \k, a finished/not-started sweep, or a
-            // sweep under an active \clip (approximated by a secondary->primary
-            // colour blend).
+            // Single-colour fill: binary \k, or a finished/not-started sweep.
             let c = karaoke_color(primary, karaoke);
             paint.set_color_rgba8(c[0], c[1], c[2], c[3]);
             for path in paths {
@@ -142,7 +138,7 @@ impl super::super::SoftwareBackend {
                         &paint,
                         tiny_skia::FillRule::Winding,
                         Transform::identity(),
-                        clip_mask,
+                        None,
                     );
                 }
             }
@@ -159,7 +155,7 @@ impl super::super::SoftwareBackend {
                 &run.text_paint,
                 tiny_skia::FillRule::Winding,
                 Transform::identity(),
-                run.clip_mask.as_ref(),
+                None,
             );
         }
     }
diff --git a/crates/ass-renderer/src/backends/software/text/mod.rs b/crates/ass-renderer/src/backends/software/text/mod.rs
index 98890f2..bc3e5c7 100644
--- a/crates/ass-renderer/src/backends/software/text/mod.rs
+++ b/crates/ass-renderer/src/backends/software/text/mod.rs
@@ -12,9 +12,12 @@
 use tiny_skia::Transform;
 
 use crate::pipeline::shaping::ShapedText;
-use crate::pipeline::TextData;
+use crate::pipeline::{TextData, TextEffect};
 use crate::utils::RenderError;
 
+#[cfg(not(feature = "nostd"))]
+use super::cache::EMIT_SINK;
+
 mod blur;
 mod decorations;
 mod fills;
@@ -35,8 +38,6 @@ struct TextRun {
     baseline_y: f32,
     /// Shaped run metrics (width/height/ascent/descent/baseline).
     shaped: ShapedText,
-    /// Rectangular `\clip`/`\iclip` mask, or `None` when unclipped.
-    clip_mask: Option<tiny_skia::Mask>,
     /// `\blur` radius, or `None` when the text is sharp.
     blur_radius: Option<f32>,
     /// Outline colour and per-axis width (`\bord`/`\xbord`/`\ybord`).
@@ -56,7 +57,50 @@ struct TextRun {
 }
 
 impl super::SoftwareBackend {
+    /// Draw a text layer. A rectangular `\clip`/`\iclip` lets through exactly what
+    /// the layer paints without it: the layer is drawn whole, then every pixel whose
+    /// centre it hides is put back as it was.
     pub(super) fn draw_text_layer(&mut self, data: &TextData) -> Result<(), RenderError> {
+        let clip = data.effects.iter().find_map(|e| match e {
+            TextEffect::Clip {
+                x1,
+                y1,
+                x2,
+                y2,
+                inverse,
+            } => Some((*x1, *y1, *x2, *y2, *inverse)),
+            _ => None,
+        });
+        let Some((x1, y1, x2, y2, inverse)) = clip else {
+            return self.draw_unclipped_text(data);
+        };
+
+        let before = self.pixmap.clone();
+        // The clipped picture is no longer the layer's tiles, so it is painted even
+        // when bitmaps are being collected.
+        #[cfg(not(feature = "nostd"))]
+        let sink = EMIT_SINK.with(|sink| sink.borrow_mut().take());
+        let result = self.draw_unclipped_text(data);
+        #[cfg(not(feature = "nostd"))]
+        EMIT_SINK.with(|slot| *slot.borrow_mut() = sink);
+
+        let width = self.pixmap.width() as usize;
+        let pixels = self.pixmap.pixels_mut().chunks_exact_mut(width.max(1));
+        let old = before.pixels().chunks_exact(width.max(1));
+        for (y, (row, old_row)) in pixels.zip(old).enumerate() {
+            let cy = y as f32 + 0.5;
+            let in_rows = cy >= y1 && cy < y2;
+            for (x, (pixel, old)) in row.iter_mut().zip(old_row).enumerate() {
+                let cx = x as f32 + 0.5;
+                if (in_rows && cx >= x1 && cx < x2) == inverse {
+                    *pixel = *old;
+                }
+            }
+        }
+        result
+    }
+
+    fn draw_unclipped_text(&mut self, data: &TextData) -> Result<(), RenderError> {
         let Some(run) = self.prepare_text_run(data)? else {
             return Ok(());
         };
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 259bf29..05a2fc6 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -1,6 +1,6 @@
 //! Per-run setup for the software text layer: shape the text, build the base
 //! transform, take the cached coverage / blur-tile fast paths, build and project
-//! the glyph paths, and resolve the clip mask, blur/outline/shadow/karaoke info,
+//! the glyph paths, and resolve the blur/outline/shadow/karaoke info,
 //! merged outline and fill paint into a [`TextRun`].
 
 use tiny_skia::Transform;
@@ -18,7 +18,7 @@ impl super::super::SoftwareBackend {
     /// build the base transform (rotation/scale/shear), take the cached coverage
     /// and blur-tile fast paths (returning `None` when a fast path already
     /// composited the layer), build the glyph paths (projecting them for
-    /// `\frx`/`\fry`), and extract the clip mask, blur/outline/shadow info, merged
+    /// `\frx`/`\fry`), and extract the blur/outline/shadow info, merged
     /// outline, fill paint and karaoke parameters.
     pub(super) fn prepare_text_run(
         &mut self,
@@ -245,19 +245,6 @@ impl super::super::SoftwareBackend {
             note_dirty_bbox(bbox);
         }
 
-        // Create clip mask if needed
-        let clip = data.effects.iter().find_map(|e| match e {
-            crate::pipeline::TextEffect::Clip {
-                x1,
-                y1,
-                x2,
-                y2,
-                inverse,
-            } => Some((*x1, *y1, *x2, *y2, *inverse)),
-            _ => None,
-        });
-        let clip_mask = self.clip_mask(clip);
-
         // \blur radius, outline and shadow, detected up front. When \blur is
         // active the outline and shadow are rendered into the blur temp (below)
         // and softened together with the fill, rather than drawn sharp here.
@@ -338,7 +325,6 @@ impl super::super::SoftwareBackend {
             projected: rot3d.is_some(),
             baseline_y,
             shaped,
-            clip_mask,
             blur_radius,
             outline_info,
             shadow_info,
-- 
2.43.0


From 36096ae940a85388a7d2c375ed9baeb67021158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 47/94] fix: no time, tag name or parenthesis in a script makes
 rendering panic

---
 .../ass-renderer/src/animation/controller.rs   |  8 ++++----
 crates/ass-renderer/src/animation/value.rs     |  5 +++--
 crates/ass-renderer/src/backends/blur.rs       | 18 ++++++++++--------
 .../src/backends/software/text/decorations.rs  |  8 ++------
 .../src/pipeline/build/animation.rs            |  2 +-
 .../ass-renderer/src/pipeline/build/drawing.rs |  5 ++++-
 .../src/pipeline/build/position.rs             |  5 ++++-
 crates/ass-renderer/src/pipeline/build/run.rs  |  2 +-
 .../src/pipeline/build/text/colors.rs          | 10 +++++-----
 .../src/pipeline/build/text/mod.rs             | 11 +++++++----
 .../src/pipeline/tag_processor/parse.rs        |  4 ++--
 .../src/pipeline/text_segmenter/split.rs       | 10 ++++------
 12 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/crates/ass-renderer/src/animation/controller.rs b/crates/ass-renderer/src/animation/controller.rs
index 5190bb9..4abfa9c 100644
--- a/crates/ass-renderer/src/animation/controller.rs
+++ b/crates/ass-renderer/src/animation/controller.rs
@@ -39,8 +39,8 @@ impl AnimationController {
         event_end: u32,
     ) -> Result<(), RenderError> {
         let timing = AnimationTiming::new(
-            event_start + tag.t1.unwrap_or(0),
-            event_start + tag.t2.unwrap_or(event_end - event_start),
+            event_start.saturating_add(tag.t1.unwrap_or(0)),
+            event_start.saturating_add(tag.t2.unwrap_or(event_end.saturating_sub(event_start))),
             tag.accel.unwrap_or(1.0),
         );
 
@@ -194,8 +194,8 @@ impl Default for AnimationController {
 fn extract_values(modifier: &str) -> Option<Vec<&str>> {
     // Find content between parentheses
     let start = modifier.find('(')?;
-    let end = modifier.find(')')?;
-    let content = &modifier[start + 1..end];
+    let rest = &modifier[start + 1..];
+    let content = &rest[..rest.find(')')?];
     Some(content.split(',').collect())
 }
 
diff --git a/crates/ass-renderer/src/animation/value.rs b/crates/ass-renderer/src/animation/value.rs
index 98febc4..264092f 100644
--- a/crates/ass-renderer/src/animation/value.rs
+++ b/crates/ass-renderer/src/animation/value.rs
@@ -47,8 +47,9 @@ impl AnimatedValue {
 
         match self {
             Self::Integer { from, to } => {
-                let value = *from + ((to - from) as f32 * t) as i32;
-                AnimatedResult::Integer(value)
+                let distance = i64::from(*to) - i64::from(*from);
+                let value = i64::from(*from) + (distance as f64 * f64::from(t)) as i64;
+                AnimatedResult::Integer(value as i32)
             }
             Self::Float { from, to } => {
                 let value = from + (to - from) * t;
diff --git a/crates/ass-renderer/src/backends/blur.rs b/crates/ass-renderer/src/backends/blur.rs
index c6cbc0f..f6cb13d 100644
--- a/crates/ass-renderer/src/backends/blur.rs
+++ b/crates/ass-renderer/src/backends/blur.rs
@@ -133,14 +133,16 @@ pub(crate) fn blurred_fills(
     let mut bounds: Option<(f32, f32, f32, f32)> = None;
     for (path, _) in fills {
         let b = path.bounds();
-        bounds = Some(bounds.map_or((b.left(), b.top(), b.right(), b.bottom()), |a| {
-            (
-                a.0.min(b.left()),
-                a.1.min(b.top()),
-                a.2.max(b.right()),
-                a.3.max(b.bottom()),
-            )
-        }));
+        bounds = Some(
+            bounds.map_or((b.left(), b.top(), b.right(), b.bottom()), |a| {
+                (
+                    a.0.min(b.left()),
+                    a.1.min(b.top()),
+                    a.2.max(b.right()),
+                    a.3.max(b.bottom()),
+                )
+            }),
+        );
     }
     let (left, top, right, bottom) = bounds?;
     // One pixel more than the kernel, for the anti-aliased edge.
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index ddb5b62..20b9139 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -89,12 +89,8 @@ impl super::super::SoftwareBackend {
                         box_paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
                         box_paint.anti_alias = true;
                         box_paint.blend_mode = tiny_skia::BlendMode::SourceOver;
-                        self.pixmap.fill_rect(
-                            rect,
-                            &box_paint,
-                            Transform::identity(),
-                            None,
-                        );
+                        self.pixmap
+                            .fill_rect(rect, &box_paint, Transform::identity(), None);
                     }
                 }
             }
diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 932335d..9a788ca 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -27,7 +27,7 @@ impl super::SoftwarePipeline {
 
             // Calculate time relative to event start (convert to milliseconds for animation)
             let relative_time_ms = if current_time_cs >= event_start_cs {
-                (current_time_cs - event_start_cs) * 10 // Convert centiseconds to milliseconds
+                (current_time_cs - event_start_cs).saturating_mul(10) // Convert centiseconds to milliseconds
             } else {
                 0
             };
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index f1e2184..d5cda62 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -88,7 +88,10 @@ impl super::SoftwarePipeline {
                 let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                     (event_start_cs, event_end_cs)
                 } else {
-                    (event_start_cs + t1, event_start_cs + t2)
+                    (
+                        event_start_cs.saturating_add(t1),
+                        event_start_cs.saturating_add(t2),
+                    )
                 };
 
                 let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 5525867..0643d57 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -142,7 +142,10 @@ impl super::SoftwarePipeline {
             let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                 (event_start_cs, event_end_cs)
             } else {
-                (event_start_cs + t1, event_start_cs + t2)
+                (
+                    event_start_cs.saturating_add(t1),
+                    event_start_cs.saturating_add(t2),
+                )
             };
 
             let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index 8d533d3..748e96d 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -73,7 +73,7 @@ fn calculate_karaoke_progress(time_cs: u32, start_time_cs: u32, duration_cs: u32
     if time_cs < start_time_cs {
         return 0.0;
     }
-    let elapsed = time_cs - start_time_cs;
+    let elapsed = time_cs.saturating_sub(start_time_cs);
     if elapsed >= duration_cs {
         return 1.0;
     }
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index d21ca1e..e4e0d3f 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -110,9 +110,9 @@ pub(super) fn resolve_run_colors(
                 alpha_mid as f32,
                 fade.alpha_end as f32,
             );
-            let t1 = event_start + fade.time_start;
-            let t2 = t1 + fade.time_fade_in.unwrap_or(0);
-            let t4 = event_start + fade.time_end;
+            let t1 = event_start.saturating_add(fade.time_start);
+            let t2 = t1.saturating_add(fade.time_fade_in.unwrap_or(0));
+            let t4 = event_start.saturating_add(fade.time_end);
             let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
             let ass_alpha = if time_cs <= t1 {
                 a1
@@ -121,7 +121,7 @@ pub(super) fn resolve_run_colors(
             } else if time_cs <= t3 {
                 a2
             } else if time_cs < t4 {
-                a2 + (a3 - a2) * (time_cs - t3) as f32 / (t4 - t3).max(1) as f32
+                a2 + (a3 - a2) * (time_cs - t3) as f32 / t4.saturating_sub(t3).max(1) as f32
             } else {
                 a3
             };
@@ -129,7 +129,7 @@ pub(super) fn resolve_run_colors(
             255.0 - ass_alpha
         } else {
             // Simple fade - times are durations
-            let fade_in_end = event_start + fade.time_start;
+            let fade_in_end = event_start.saturating_add(fade.time_start);
             let fade_out_start = event_end.saturating_sub(fade.time_end);
 
             if time_cs < fade_in_end {
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index da01eb8..f630bbe 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -275,9 +275,11 @@ impl super::SoftwarePipeline {
                 // Handle karaoke - track per-syllable timing
                 if let Some(karaoke) = &tags.karaoke {
                     // Calculate progress for THIS syllable based on cumulative timing
-                    let syllable_start =
-                        event.start_time_cs().unwrap_or(0) + karaoke_accumulated_time;
-                    let syllable_end = syllable_start + karaoke.duration;
+                    let syllable_start = event
+                        .start_time_cs()
+                        .unwrap_or(0)
+                        .saturating_add(karaoke_accumulated_time);
+                    let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
                     let progress = if time_cs < syllable_start {
                         0.0 // Not yet started
@@ -307,7 +309,8 @@ impl super::SoftwarePipeline {
                     });
 
                     // Accumulate time for next syllable
-                    karaoke_accumulated_time += karaoke.duration;
+                    karaoke_accumulated_time =
+                        karaoke_accumulated_time.saturating_add(karaoke.duration);
                 }
 
                 // Advance the pen to the end of this segment so the next run on the
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index a544251..76d19eb 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -174,8 +174,8 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
                 time_start: t1,
                 time_end: t4,
                 alpha_middle: Some(alpha2),
-                time_fade_in: Some(t2 - t1),
-                time_fade_out: Some(t4 - t3),
+                time_fade_in: Some(t2.saturating_sub(t1)),
+                time_fade_out: Some(t4.saturating_sub(t3)),
             });
         }
     }
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index f231f1f..0fa1d8b 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -26,7 +26,8 @@ pub(super) fn split_tags_carefully(content: &str) -> Vec<String> {
             if ch == '(' {
                 depth += 1;
             } else if ch == ')' {
-                depth -= 1;
+                // A parenthesis that closes nothing opens nothing either.
+                depth = (depth - 1).max(0);
 
                 // If we closed all parentheses, this tag is complete
                 if depth == 0 && !current.is_empty() {
@@ -62,11 +63,8 @@ pub(super) fn extract_tag_name_and_args(part: &str) -> (&str, &str) {
         // letter before the `&H`, very common in real scripts — 6500+ times in
         // the benchmark) still resolves to `1c` rather than an unknown `1cH`;
         // parse_color / parse_alpha tolerate the leftover prefix.
-        if part.len() >= 2 {
-            (&part[..2], &part[2..])
-        } else {
-            (part, "")
-        }
+        let end = part.chars().take(2).map(char::len_utf8).sum();
+        part.split_at(end)
     } else if let Some(idx) = part.find(|c: char| !c.is_ascii_alphabetic()) {
         (&part[..idx], &part[idx..])
     } else {
-- 
2.43.0


From ee47fc644c926cf45b7df1d7a95e3bd61e8f27eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 48/94] fix: a blur has libass's limit and a scaled shadow is
 inside its bitmap

---
 crates/ass-renderer/src/backends/blur.rs                 | 2 +-
 crates/ass-renderer/src/backends/software/dirty.rs       | 7 +++++--
 crates/ass-renderer/src/pipeline/text_segmenter/apply.rs | 5 ++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/backends/blur.rs b/crates/ass-renderer/src/backends/blur.rs
index f6cb13d..73bdf34 100644
--- a/crates/ass-renderer/src/backends/blur.rs
+++ b/crates/ass-renderer/src/backends/blur.rs
@@ -125,7 +125,7 @@ pub(crate) fn blurred_fills(
     visible: (f32, f32, f32, f32),
 ) -> Option<(Pixmap, i32, i32, bool)> {
     /// No blur reaches further than a frame can show.
-    const MAX_SIGMA: f32 = 512.0;
+    const MAX_SIGMA: f32 = 128.0;
     /// Pictures up to this many pixels are painted whole, so that they can be
     /// reused wherever they are shown.
     const WHOLE: f32 = (1 << 20) as f32;
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 75f7844..81d824c 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -15,7 +15,7 @@ use std::sync::Arc;
 use tiny_skia::{Pixmap, Transform};
 
 use super::cache::DIRTY_BBOX;
-use crate::backends::geometry::merge_transformed;
+use crate::backends::geometry::{merge_transformed, shadow_delta};
 
 /// A generous screen-space bbox covering a text layer's vector-path output
 /// (glyphs plus an outline/shadow/blur margin), or `None` if it has no geometry.
@@ -53,7 +53,10 @@ pub(super) fn text_vector_dirty_bbox(
             } => outline = outline.max(padding_x.max(*padding_y)),
             TextEffect::Shadow {
                 x_offset, y_offset, ..
-            } => shadow = shadow.max(x_offset.abs()).max(y_offset.abs()),
+            } => {
+                let (x, y) = shadow_delta(base_transform, *x_offset, *y_offset);
+                shadow = shadow.max((x.unsigned_abs().max(y.unsigned_abs())) as f32);
+            }
             TextEffect::Blur { radius } | TextEffect::EdgeBlur { radius } => {
                 blur = blur.max(*radius)
             }
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index a483971..8ee5df1 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -14,6 +14,9 @@ use alloc::string::ToString;
 #[cfg(not(feature = "nostd"))]
 use std::string::ToString;
 
+/// The largest `\blur` there is, as in libass.
+const MAX_BLUR: f32 = 100.0;
+
 /// Process tags within a tag block and update current tags
 pub(super) fn process_tag_block(
     content: &str,
@@ -123,7 +126,7 @@ pub(super) fn process_tag_block(
             }
             "blur" => {
                 if let Ok(radius) = args.parse::<f32>() {
-                    current.formatting.blur = Some(radius);
+                    current.formatting.blur = Some(radius.clamp(0.0, MAX_BLUR));
                 }
             }
             "be" => {
-- 
2.43.0


From 56fe9230cdac1bdeefd6104786b9595839190d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 49/94] fix: override tags mean what they say wherever they
 stand

---
 .../src/pipeline/build/text/colors.rs         |   4 +-
 .../src/pipeline/build/text/mod.rs            |   7 +-
 .../src/pipeline/text_segmenter/apply.rs      | 310 +++++++-----------
 .../src/pipeline/text_segmenter/mod.rs        |  13 +-
 4 files changed, 129 insertions(+), 205 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index e4e0d3f..b84feca 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -84,11 +84,11 @@ pub(super) fn resolve_run_colors(
         // Alpha is already inverted in parse_alpha (255 = opaque, 0 = transparent)
         color[3] = alpha;
     }
-    if let Some(alpha) = tags.colors.alpha3 {
+    if let Some(alpha) = tags.colors.alpha3.or(tags.colors.alpha) {
         // Alpha is already inverted in parse_alpha
         outline_color[3] = alpha;
     }
-    if let Some(alpha) = tags.colors.alpha4 {
+    if let Some(alpha) = tags.colors.alpha4.or(tags.colors.alpha) {
         // Alpha is already inverted in parse_alpha
         shadow_color[3] = alpha;
     }
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index f630bbe..a044afe 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -151,7 +151,6 @@ impl super::SoftwarePipeline {
                 current_x: 0.0,
                 needs_initial_position: true,
             };
-            let mut karaoke_accumulated_time = 0u32; // Track cumulative karaoke time for this line
 
             let layout = LineLayout {
                 is_multi_segment,
@@ -278,7 +277,7 @@ impl super::SoftwarePipeline {
                     let syllable_start = event
                         .start_time_cs()
                         .unwrap_or(0)
-                        .saturating_add(karaoke_accumulated_time);
+                        .saturating_add(karaoke.start_time.unwrap_or(0));
                     let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
                     let progress = if time_cs < syllable_start {
@@ -307,10 +306,6 @@ impl super::SoftwarePipeline {
                         },
                         secondary: karaoke_secondary,
                     });
-
-                    // Accumulate time for next syllable
-                    karaoke_accumulated_time =
-                        karaoke_accumulated_time.saturating_add(karaoke.duration);
                 }
 
                 // Advance the pen to the end of this segment so the next run on the
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 8ee5df1..4199b7c 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -18,6 +18,10 @@ use std::string::ToString;
 const MAX_BLUR: f32 = 100.0;
 
 /// Process tags within a tag block and update current tags
+///
+/// A tag without a value takes back what was set before it, so that the style's
+/// value shows again; a value that cannot be read changes nothing. Of the tags that
+/// concern the whole event the first one counts, except that the last clip does.
 pub(super) fn process_tag_block(
     content: &str,
     current: &mut ProcessedTags,
@@ -35,211 +39,124 @@ pub(super) fn process_tag_block(
         // Process based on tag name
         match name {
             // Color tags
-            "c" | "1c" => {
-                if let Some(color) = parse_color(args) {
-                    current.colors.primary = Some(color);
-                }
-            }
-            "2c" => {
-                if let Some(color) = parse_color(args) {
-                    current.colors.secondary = Some(color);
-                }
-            }
-            "3c" => {
-                if let Some(color) = parse_color(args) {
-                    current.colors.outline = Some(color);
-                }
-            }
-            "4c" => {
-                if let Some(color) = parse_color(args) {
-                    current.colors.shadow = Some(color);
-                }
-            }
+            "c" | "1c" => set(&mut current.colors.primary, args, parse_color),
+            "2c" => set(&mut current.colors.secondary, args, parse_color),
+            "3c" => set(&mut current.colors.outline, args, parse_color),
+            "4c" => set(&mut current.colors.shadow, args, parse_color),
+            // \alpha stands for all four of the tags below.
             "alpha" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha = Some(alpha);
-                }
-            }
-            "1a" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha1 = Some(alpha);
-                }
-            }
-            "2a" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha2 = Some(alpha);
-                }
-            }
-            "3a" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha3 = Some(alpha);
-                }
-            }
-            "4a" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha4 = Some(alpha);
+                set(&mut current.colors.alpha, args, parse_alpha);
+                if args.is_empty() || parse_alpha(args).is_some() {
+                    current.colors.alpha1 = None;
+                    current.colors.alpha2 = None;
+                    current.colors.alpha3 = None;
+                    current.colors.alpha4 = None;
                 }
             }
+            "1a" => set(&mut current.colors.alpha1, args, parse_alpha),
+            "2a" => set(&mut current.colors.alpha2, args, parse_alpha),
+            "3a" => set(&mut current.colors.alpha3, args, parse_alpha),
+            "4a" => set(&mut current.colors.alpha4, args, parse_alpha),
 
             // Font tags
-            "fn" => {
-                // Empty \fn resets to style default
-                if args.is_empty() {
-                    current.font.name = None;
-                } else {
-                    current.font.name = Some(args.to_string());
-                }
-            }
-            "fs" => {
-                if let Ok(size) = args.parse::<f32>() {
-                    current.font.size = Some(size);
-                }
-            }
-            "b" => {
-                current.formatting.bold = Some(args != "0");
-            }
-            "i" => {
-                current.formatting.italic = Some(args != "0");
-            }
-            "u" => {
-                current.formatting.underline = Some(args != "0");
-            }
-            "s" => {
-                current.formatting.strikeout = Some(args != "0");
-            }
+            "fn" => set(&mut current.font.name, args, |name| Some(name.to_string())),
+            "fs" => set(&mut current.font.size, args, parse_number),
+            "b" => set(&mut current.formatting.bold, args, parse_flag),
+            "i" => set(&mut current.formatting.italic, args, parse_flag),
+            "u" => set(&mut current.formatting.underline, args, parse_flag),
+            "s" => set(&mut current.formatting.strikeout, args, parse_flag),
 
             // Font scale and spacing tags
-            "fscx" => {
-                if let Ok(scale) = args.parse::<f32>() {
-                    current.font.scale_x = Some(scale);
-                }
-            }
-            "fscy" => {
-                if let Ok(scale) = args.parse::<f32>() {
-                    current.font.scale_y = Some(scale);
-                }
-            }
-            "fsp" => {
-                if let Ok(spacing) = args.parse::<f32>() {
-                    current.font.spacing = Some(spacing);
-                }
-            }
-            "blur" => {
-                if let Ok(radius) = args.parse::<f32>() {
-                    current.formatting.blur = Some(radius.clamp(0.0, MAX_BLUR));
-                }
-            }
-            "be" => {
-                if let Ok(radius) = args.parse::<f32>() {
-                    current.formatting.blur_edges = Some(radius);
-                }
-            }
+            "fscx" => set(&mut current.font.scale_x, args, parse_number),
+            "fscy" => set(&mut current.font.scale_y, args, parse_number),
+            "fsp" => set(&mut current.font.spacing, args, parse_number),
+            "blur" => set(&mut current.formatting.blur, args, |args| {
+                parse_number(args).map(|radius| radius.clamp(0.0, MAX_BLUR))
+            }),
+            "be" => set(&mut current.formatting.blur_edges, args, parse_number),
             "clip" | "iclip" => {
                 if let Some(mut clip) = parse_clip_args(args) {
                     clip.inverse = name == "iclip";
                     current.clip = Some(clip);
                 }
             }
-            "fax" => {
-                if let Ok(shear) = args.parse::<f32>() {
-                    current.shear_x = Some(shear);
-                }
-            }
-            "fay" => {
-                if let Ok(shear) = args.parse::<f32>() {
-                    current.shear_y = Some(shear);
-                }
-            }
+            "fax" => set(&mut current.shear_x, args, parse_number),
+            "fay" => set(&mut current.shear_y, args, parse_number),
             "org" => {
-                if let Some((x, y)) = parse_pos_args(args) {
-                    current.origin = Some((x, y));
+                if current.origin.is_none() {
+                    current.origin = parse_pos_args(args);
                 }
             }
 
             // Rotation tags
-            "frz" | "fr" => {
-                if let Ok(angle) = args.parse::<f32>() {
-                    current.font.rotation_z = Some(angle);
-                }
-            }
-            "frx" => {
-                if let Ok(angle) = args.parse::<f32>() {
-                    current.font.rotation_x = Some(angle);
-                }
-            }
-            "fry" => {
-                if let Ok(angle) = args.parse::<f32>() {
-                    current.font.rotation_y = Some(angle);
-                }
-            }
+            "frz" | "fr" => set(&mut current.font.rotation_z, args, parse_number),
+            "frx" => set(&mut current.font.rotation_x, args, parse_number),
+            "fry" => set(&mut current.font.rotation_y, args, parse_number),
 
-            // Border / outline width
+            // Border / outline width: \bord stands for both axes
             "bord" => {
-                if let Ok(w) = args.parse::<f32>() {
-                    current.formatting.border = Some(w);
+                if args.is_empty() || parse_number(args).is_some() {
+                    current.formatting.border_x = None;
+                    current.formatting.border_y = None;
                 }
+                set(&mut current.formatting.border, args, parse_number);
             }
-            "xbord" => {
-                if let Ok(w) = args.parse::<f32>() {
-                    current.formatting.border_x = Some(w);
-                }
-            }
-            "ybord" => {
-                if let Ok(w) = args.parse::<f32>() {
-                    current.formatting.border_y = Some(w);
-                }
-            }
-            // Shadow depth
+            "xbord" => set(&mut current.formatting.border_x, args, parse_number),
+            "ybord" => set(&mut current.formatting.border_y, args, parse_number),
+            // Shadow depth: \shad stands for both axes
             "shad" => {
-                if let Ok(d) = args.parse::<f32>() {
-                    current.formatting.shadow = Some(d);
-                }
-            }
-            "xshad" => {
-                if let Ok(d) = args.parse::<f32>() {
-                    current.formatting.shadow_x = Some(d);
-                }
-            }
-            "yshad" => {
-                if let Ok(d) = args.parse::<f32>() {
-                    current.formatting.shadow_y = Some(d);
+                if args.is_empty() || parse_number(args).is_some() {
+                    current.formatting.shadow_x = None;
+                    current.formatting.shadow_y = None;
                 }
+                set(&mut current.formatting.shadow, args, parse_number);
             }
+            "xshad" => set(&mut current.formatting.shadow_x, args, parse_number),
+            "yshad" => set(&mut current.formatting.shadow_y, args, parse_number),
             // Wrap style
-            "q" => {
-                if let Ok(wrap) = args.parse::<u8>() {
-                    current.formatting.wrap_style = Some(wrap);
-                }
-            }
-            // \r resets all inline overrides back to the line's style.
+            "q" => set(&mut current.formatting.wrap_style, args, |args| {
+                args.parse().ok()
+            }),
+            // \r resets the inline overrides back to a style: the line's, or the one
+            // it names. What concerns the whole event stays.
             "r" => {
-                *current = ProcessedTags::default();
+                let before = core::mem::take(current);
+                current.reset = (!args.is_empty()).then(|| args.to_string());
+                current.position = before.position;
+                current.movement = before.movement;
+                current.origin = before.origin;
+                current.clip = before.clip;
+                current.fade = before.fade;
+                current.karaoke = before.karaoke;
+                current.drawing_mode = before.drawing_mode;
+                current.formatting.alignment = before.formatting.alignment;
+                current.formatting.wrap_style = before.formatting.wrap_style;
             }
 
             // Alignment tags
             "a" | "an" => {
-                if let Ok(align) = args.parse::<u8>() {
-                    current.formatting.alignment = Some(align);
+                let alignment = args.parse::<u8>().ok().and_then(|value| match value {
+                    1..=9 if name == "an" => Some(value),
+                    // \a counts the columns like \an, with 4 for top and 8 for middle.
+                    1..=3 if name == "a" => Some(value),
+                    5..=7 if name == "a" => Some(value + 2),
+                    9..=11 if name == "a" => Some(value - 5),
+                    _ => None,
+                });
+                if current.formatting.alignment.is_none() {
+                    current.formatting.alignment = alignment;
                 }
             }
 
             // Position tags - these apply to the whole event, not segments
-            "pos" => {
-                if let Some((x, y)) = parse_pos_args(args) {
-                    current.position = Some((x, y));
-                }
-            }
-            "move" => {
-                if let Some(data) = parse_move_args(args) {
-                    current.movement = Some(data);
-                }
-            }
+            "pos" | "move" if current.position.is_some() || current.movement.is_some() => {}
+            "pos" => current.position = parse_pos_args(args),
+            "move" => current.movement = parse_move_args(args),
 
             // Fade effects
             "fad" | "fade" => {
-                // Import the parse_fade_args function
-                if let Some(fade) = parse_fade_args(args) {
-                    current.fade = Some(fade);
+                if current.fade.is_none() {
+                    current.fade = parse_fade_args(args);
                 }
             }
 
@@ -259,39 +176,22 @@ pub(super) fn process_tag_block(
             }
 
             // Karaoke tags
-            "k" => {
+            "k" | "kf" | "ko" | "K" => {
                 if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
-                        duration,
-                        style: KaraokeStyle::Basic,
-                        start_time: None,
+                    // A syllable starts where the one before it ends.
+                    let start = current.karaoke.as_ref().map_or(0, |syllable| {
+                        let start = syllable.start_time.unwrap_or(0);
+                        start.saturating_add(syllable.duration)
                     });
-                }
-            }
-            "kf" => {
-                if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
-                        duration,
-                        style: KaraokeStyle::Fill,
-                        start_time: None,
-                    });
-                }
-            }
-            "ko" => {
-                if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
-                        duration,
-                        style: KaraokeStyle::Outline,
-                        start_time: None,
-                    });
-                }
-            }
-            "K" => {
-                if let Ok(duration) = args.parse::<u32>() {
                     current.karaoke = Some(KaraokeData {
                         duration,
-                        style: KaraokeStyle::Sweep,
-                        start_time: None,
+                        style: match name {
+                            "kf" => KaraokeStyle::Fill,
+                            "ko" => KaraokeStyle::Outline,
+                            "K" => KaraokeStyle::Sweep,
+                            _ => KaraokeStyle::Basic,
+                        },
+                        start_time: Some(start),
                     });
                 }
             }
@@ -304,3 +204,21 @@ pub(super) fn process_tag_block(
 
     Ok(())
 }
+
+/// Set `slot` to the value of a tag. Without a value the tag clears the slot, and a
+/// value that cannot be read leaves it alone.
+fn set<T>(slot: &mut Option<T>, args: &str, parse: impl FnOnce(&str) -> Option<T>) {
+    if args.is_empty() {
+        *slot = None;
+    } else if let Some(value) = parse(args) {
+        *slot = Some(value);
+    }
+}
+
+fn parse_number(args: &str) -> Option<f32> {
+    args.parse().ok().filter(|value: &f32| value.is_finite())
+}
+
+fn parse_flag(args: &str) -> Option<bool> {
+    Some(args != "0")
+}
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs b/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
index 6a318bc..83dd3d3 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
@@ -148,10 +148,21 @@ pub fn segment_text_with_tags(
             text: current_text,
             start: last_pos,
             end: text.len(),
-            tags: current_tags,
+            tags: current_tags.clone(),
         });
     }
 
+    // Wherever they stand, these concern the whole event.
+    for segment in &mut segments {
+        let tags = &mut segment.tags;
+        tags.position = current_tags.position;
+        tags.movement = current_tags.movement;
+        tags.origin = current_tags.origin;
+        tags.clip.clone_from(&current_tags.clip);
+        tags.fade.clone_from(&current_tags.fade);
+        tags.formatting.alignment = current_tags.formatting.alignment;
+    }
+
     Ok(segments)
 }
 
-- 
2.43.0


From d3d61e6c51454910edbfbbda23ab248978bb0072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 50/94] fix: glyphs of any size and events of any priority are
 told apart

---
 crates/ass-renderer/src/collision/resolver.rs              | 2 +-
 crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/collision/resolver.rs b/crates/ass-renderer/src/collision/resolver.rs
index 3a00b70..700ce82 100644
--- a/crates/ass-renderer/src/collision/resolver.rs
+++ b/crates/ass-renderer/src/collision/resolver.rs
@@ -113,7 +113,7 @@ impl SmartCollisionResolver {
     /// Process events with smart collision resolution
     pub fn process_events(&mut self, events: &mut [PositionedEvent]) {
         // Sort by priority (lower priority = can be moved)
-        events.sort_by_key(|e| -e.priority);
+        events.sort_by_key(|e| core::cmp::Reverse(e.priority));
 
         self.resolver.clear();
 
diff --git a/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs b/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
index ade0599..d089c17 100644
--- a/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
@@ -93,11 +93,11 @@ impl GlyphRenderer {
 
         // Render each glyph
         for (i, glyph) in shaped.glyphs.iter().enumerate() {
-            let size_fixed = (shaped.font_size * 65536.0) as u32; // Convert to 16.16 fixed point
+            let size_bits = shaped.font_size.to_bits();
             let key = GlyphKey {
                 font_id,
                 glyph_id: glyph.glyph_id,
-                size: size_fixed,
+                size: size_bits,
             };
 
             // Apply spacing to x position (accumulated for all previous glyphs)
-- 
2.43.0


From 3714cd113cca8f8baf0396066717354df226ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 51/94] fix: runs of a line are laid out together, from the
 style and time they have

---
 .../src/backends/software/text/prepare.rs     |  23 +-
 .../src/pipeline/build/animation.rs           | 219 +++++--------
 .../src/pipeline/build/drawing.rs             | 150 +++------
 .../src/pipeline/build/position.rs            | 139 ++++----
 crates/ass-renderer/src/pipeline/build/run.rs |  31 +-
 .../ass-renderer/src/pipeline/build/style.rs  |  42 +--
 .../src/pipeline/build/text/colors.rs         | 148 +++++----
 .../src/pipeline/build/text/defaults.rs       |  44 ++-
 .../src/pipeline/build/text/effects.rs        |  20 +-
 .../src/pipeline/build/text/mod.rs            | 299 +++++++++---------
 .../src/pipeline/build/text/position.rs       | 207 ++----------
 .../src/pipeline/build/text/types.rs          |  90 +++---
 .../ass-renderer/src/pipeline/shaping/mod.rs  |  11 +
 .../src/pipeline/text_segmenter/apply.rs      |  14 +-
 .../src/pipeline/text_segmenter/mod.rs        |   1 +
 .../src/pipeline/transform/parse.rs           |  36 ++-
 16 files changed, 635 insertions(+), 839 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 05a2fc6..d5efcf1 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -55,6 +55,17 @@ impl super::super::SoftwareBackend {
             &self.font_database,
         )?;
 
+        // The width the text has on screen, where it starts at data.x
+        let (font_scale_x, font_scale_y) = data
+            .effects
+            .iter()
+            .find_map(|effect| match effect {
+                crate::pipeline::TextEffect::Scale { x, y } => Some((*x, *y)),
+                _ => None,
+            })
+            .unwrap_or((100.0, 100.0));
+        let drawn_width = shaped.drawn_width(data.spacing, font_scale_x, font_scale_y);
+
         // Build base transform with rotation and scaling
         // The data.x and data.y are the top-left corner of the text box
         // But glyphs are positioned from their baseline, so we need to adjust y by adding the baseline offset
@@ -82,7 +93,7 @@ impl super::super::SoftwareBackend {
                     // ascent too low.
                     let (text_center_x, text_center_y) = match origin {
                         Some((ox, oy)) => (ox - data.x, oy - baseline_y),
-                        None => (shaped.width / 2.0, shaped.height / 2.0 - shaped.baseline),
+                        None => (drawn_width / 2.0, shaped.height / 2.0 - shaped.baseline),
                     };
 
                     // Z rotation (true 2D rotation). tiny-skia's pre_rotate takes
@@ -119,18 +130,14 @@ impl super::super::SoftwareBackend {
                     // ratio is 1 and this is a no-op.)
                     let x_scale = if *y != 0.0 { *x / *y } else { *x / 100.0 };
                     if (x_scale - 1.0).abs() > 0.01 {
-                        let text_center_x = shaped.width / 2.0;
-                        base_transform = base_transform
-                            .pre_translate(text_center_x, 0.0)
-                            .pre_scale(x_scale, 1.0)
-                            .pre_translate(-text_center_x, 0.0);
+                        base_transform = base_transform.pre_scale(x_scale, 1.0);
                     }
                 }
                 crate::pipeline::TextEffect::Shear { x, y } => {
                     // Apply shear (\fax/\fay) around the text centre. Shearing around
                     // the screen origin displaced the text by skew*position, shoving
                     // it far across the frame.
-                    let text_center_x = shaped.width / 2.0;
+                    let text_center_x = drawn_width / 2.0;
                     let text_center_y = shaped.height / 2.0;
                     base_transform = base_transform
                         .pre_translate(text_center_x, text_center_y)
@@ -211,7 +218,7 @@ impl super::super::SoftwareBackend {
             .filter_map(|(y, width)| {
                 let mut builder = tiny_skia::PathBuilder::new();
                 builder.move_to(0.0, y);
-                builder.line_to(shaped.width, y);
+                builder.line_to(shaped.drawn_width(data.spacing, 100.0, 100.0), y);
                 let stroke = tiny_skia::Stroke {
                     width,
                     line_cap: tiny_skia::LineCap::Round,
diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 9a788ca..862b3b8 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -1,5 +1,6 @@
 //! Transform (`\t`) animation application for the software pipeline.
 
+use super::text::TextDefaults;
 use crate::pipeline::{
     tag_processor::ProcessedTags,
     transform::{interpolate_alpha, interpolate_color, interpolate_f32, AnimatableTag},
@@ -7,167 +8,111 @@ use crate::pipeline::{
 
 impl super::SoftwarePipeline {
     /// Apply transform animations to tags based on current time
+    ///
+    /// Every transform starts from what the run would show without it: the value an
+    /// override or an earlier transform gave it, or else its style's.
     pub(super) fn apply_transform_animations(
         &self,
         tags: &mut ProcessedTags,
         event_start_cs: u32,
         event_end_cs: u32,
         current_time_cs: u32,
-        default_colors: ([u8; 4], [u8; 4], [u8; 4], [u8; 4]), // primary, secondary, outline, shadow
-        default_font_size: f32,
+        defaults: &TextDefaults,
     ) {
         // Event duration in milliseconds: a \t with no explicit end animates over it.
         let full_duration_ms = event_end_cs
             .saturating_sub(event_start_cs)
             .saturating_mul(10);
+        // Time relative to event start (converted to milliseconds for animation)
+        let relative_time_ms = current_time_cs
+            .saturating_sub(event_start_cs)
+            .saturating_mul(10);
 
         // Process all transforms (can have multiple)
         for transform_data in &tags.transforms {
             let animation = &transform_data.animation;
+            let progress = animation.calculate_progress(relative_time_ms, full_duration_ms);
+            if progress <= 0.0 {
+                continue;
+            }
+            let progress = progress.min(1.0);
 
-            // Calculate time relative to event start (convert to milliseconds for animation)
-            let relative_time_ms = if current_time_cs >= event_start_cs {
-                (current_time_cs - event_start_cs).saturating_mul(10) // Convert centiseconds to milliseconds
-            } else {
-                0
+            let number = |slot: &mut Option<f32>, default: f32, target: f32| {
+                *slot = Some(interpolate_f32(slot.unwrap_or(default), target, progress));
+            };
+            let color = |slot: &mut Option<[u8; 4]>, default: [u8; 4], target: [u8; 4]| {
+                *slot = Some(interpolate_color(slot.unwrap_or(default), target, progress));
             };
 
-            // Calculate animation progress (expects milliseconds)
-            let progress = animation.calculate_progress(relative_time_ms, full_duration_ms);
-
-            // If animation hasn't started or has finished, we might not need to interpolate
-            if progress <= 0.0 || progress >= 1.0 {
-                if progress >= 1.0 {
-                    // Apply final values
-                    for target in &animation.target_tags {
-                        match target {
-                            AnimatableTag::FontSize(size) => tags.font.size = Some(*size),
-                            AnimatableTag::FontScaleX(scale) => tags.font.scale_x = Some(*scale),
-                            AnimatableTag::FontScaleY(scale) => tags.font.scale_y = Some(*scale),
-                            AnimatableTag::FontSpacing(spacing) => {
-                                tags.font.spacing = Some(*spacing)
-                            }
-                            AnimatableTag::FontRotationZ(angle) => {
-                                tags.font.rotation_z = Some(*angle)
-                            }
-                            AnimatableTag::FontRotationX(angle) => {
-                                tags.font.rotation_x = Some(*angle)
-                            }
-                            AnimatableTag::FontRotationY(angle) => {
-                                tags.font.rotation_y = Some(*angle)
-                            }
-                            AnimatableTag::PrimaryColor(color) => {
-                                tags.colors.primary = Some(*color)
-                            }
-                            AnimatableTag::SecondaryColor(color) => {
-                                tags.colors.secondary = Some(*color)
-                            }
-                            AnimatableTag::OutlineColor(color) => {
-                                tags.colors.outline = Some(*color)
-                            }
-                            AnimatableTag::ShadowColor(color) => tags.colors.shadow = Some(*color),
-                            AnimatableTag::Alpha(alpha) => tags.colors.alpha = Some(*alpha),
-                            AnimatableTag::BorderWidth(width) => {
-                                tags.formatting.border = Some(*width)
-                            }
-                            AnimatableTag::ShadowDepth(depth) => {
-                                tags.formatting.shadow = Some(*depth)
+            let font = &mut tags.font;
+            let colors = &mut tags.colors;
+            let formatting = &mut tags.formatting;
+            for target in &animation.target_tags {
+                match *target {
+                    AnimatableTag::FontSize(size) => {
+                        number(&mut font.size, defaults.font_size_base, size);
+                    }
+                    AnimatableTag::FontScaleX(scale) => {
+                        number(&mut font.scale_x, defaults.scale_x, scale);
+                    }
+                    AnimatableTag::FontScaleY(scale) => {
+                        number(&mut font.scale_y, defaults.scale_y, scale);
+                    }
+                    AnimatableTag::FontSpacing(spacing) => {
+                        number(&mut font.spacing, defaults.spacing, spacing);
+                    }
+                    AnimatableTag::FontRotationZ(angle) => {
+                        number(&mut font.rotation_z, defaults.angle, angle);
+                    }
+                    AnimatableTag::FontRotationX(angle) => {
+                        number(&mut font.rotation_x, 0.0, angle);
+                    }
+                    AnimatableTag::FontRotationY(angle) => {
+                        number(&mut font.rotation_y, 0.0, angle);
+                    }
+                    AnimatableTag::PrimaryColor(target) => {
+                        color(&mut colors.primary, defaults.primary_color, target);
+                    }
+                    AnimatableTag::SecondaryColor(target) => {
+                        color(&mut colors.secondary, defaults.secondary_color, target);
+                    }
+                    AnimatableTag::OutlineColor(target) => {
+                        color(&mut colors.outline, defaults.outline_color, target);
+                    }
+                    AnimatableTag::ShadowColor(target) => {
+                        color(&mut colors.shadow, defaults.back_color, target);
+                    }
+                    AnimatableTag::Alpha(target) => {
+                        // Stands for all four components, each from where it is.
+                        let whole = colors.alpha;
+                        let alpha = |slot: &mut Option<u8>, default: [u8; 4]| {
+                            let current = slot.or(whole).unwrap_or(default[3]);
+                            *slot = Some(interpolate_alpha(current, target, progress));
+                        };
+                        alpha(&mut colors.alpha1, defaults.primary_color);
+                        alpha(&mut colors.alpha2, defaults.secondary_color);
+                        alpha(&mut colors.alpha3, defaults.outline_color);
+                        alpha(&mut colors.alpha4, defaults.back_color);
+                    }
+                    AnimatableTag::BorderWidth(width) => {
+                        let start = formatting.border.unwrap_or(defaults.outline_base);
+                        for slot in [&mut formatting.border_x, &mut formatting.border_y] {
+                            if slot.is_some() {
+                                number(slot, start, width);
                             }
-                            AnimatableTag::Blur(blur) => tags.formatting.blur = Some(*blur),
                         }
+                        number(&mut formatting.border, start, width);
                     }
-                }
-                // Don't return early - we still need to process the rest of the code
-                // to apply effects like rotation
-            } else if progress > 0.0 {
-                // Interpolate values
-                for target in &animation.target_tags {
-                    match target {
-                        AnimatableTag::FontSize(target_size) => {
-                            if let Some(current) = tags.font.size {
-                                tags.font.size =
-                                    Some(interpolate_f32(current, *target_size, progress));
-                            } else {
-                                // No explicit \fs before \t: animate from the style's
-                                // base size (libass), not from zero.
-                                tags.font.size = Some(interpolate_f32(
-                                    default_font_size,
-                                    *target_size,
-                                    progress,
-                                ));
+                    AnimatableTag::ShadowDepth(depth) => {
+                        let start = formatting.shadow.unwrap_or(defaults.shadow_base);
+                        for slot in [&mut formatting.shadow_x, &mut formatting.shadow_y] {
+                            if slot.is_some() {
+                                number(slot, start, depth);
                             }
                         }
-                        AnimatableTag::FontScaleX(target_scale) => {
-                            let current = tags.font.scale_x.unwrap_or(100.0);
-                            tags.font.scale_x =
-                                Some(interpolate_f32(current, *target_scale, progress));
-                        }
-                        AnimatableTag::FontScaleY(target_scale) => {
-                            let current = tags.font.scale_y.unwrap_or(100.0);
-                            tags.font.scale_y =
-                                Some(interpolate_f32(current, *target_scale, progress));
-                        }
-                        AnimatableTag::FontSpacing(target_spacing) => {
-                            let current = tags.font.spacing.unwrap_or(0.0);
-                            tags.font.spacing =
-                                Some(interpolate_f32(current, *target_spacing, progress));
-                        }
-                        AnimatableTag::FontRotationZ(target_angle) => {
-                            let current = tags.font.rotation_z.unwrap_or(0.0);
-                            tags.font.rotation_z =
-                                Some(interpolate_f32(current, *target_angle, progress));
-                        }
-                        AnimatableTag::FontRotationX(target_angle) => {
-                            let current = tags.font.rotation_x.unwrap_or(0.0);
-                            tags.font.rotation_x =
-                                Some(interpolate_f32(current, *target_angle, progress));
-                        }
-                        AnimatableTag::FontRotationY(target_angle) => {
-                            let current = tags.font.rotation_y.unwrap_or(0.0);
-                            tags.font.rotation_y =
-                                Some(interpolate_f32(current, *target_angle, progress));
-                        }
-                        AnimatableTag::PrimaryColor(target_color) => {
-                            let current = tags.colors.primary.unwrap_or(default_colors.0);
-                            tags.colors.primary =
-                                Some(interpolate_color(current, *target_color, progress));
-                        }
-                        AnimatableTag::SecondaryColor(target_color) => {
-                            let current = tags.colors.secondary.unwrap_or(default_colors.1);
-                            tags.colors.secondary =
-                                Some(interpolate_color(current, *target_color, progress));
-                        }
-                        AnimatableTag::OutlineColor(target_color) => {
-                            let current = tags.colors.outline.unwrap_or(default_colors.2);
-                            tags.colors.outline =
-                                Some(interpolate_color(current, *target_color, progress));
-                        }
-                        AnimatableTag::ShadowColor(target_color) => {
-                            let current = tags.colors.shadow.unwrap_or(default_colors.3);
-                            tags.colors.shadow =
-                                Some(interpolate_color(current, *target_color, progress));
-                        }
-                        AnimatableTag::Alpha(target_alpha) => {
-                            let current = tags.colors.alpha.unwrap_or(0);
-                            tags.colors.alpha =
-                                Some(interpolate_alpha(current, *target_alpha, progress));
-                        }
-                        AnimatableTag::BorderWidth(target_width) => {
-                            let current = tags.formatting.border.unwrap_or(0.0);
-                            tags.formatting.border =
-                                Some(interpolate_f32(current, *target_width, progress));
-                        }
-                        AnimatableTag::ShadowDepth(target_depth) => {
-                            let current = tags.formatting.shadow.unwrap_or(0.0);
-                            tags.formatting.shadow =
-                                Some(interpolate_f32(current, *target_depth, progress));
-                        }
-                        AnimatableTag::Blur(target_blur) => {
-                            let current = tags.formatting.blur.unwrap_or(0.0);
-                            tags.formatting.blur =
-                                Some(interpolate_f32(current, *target_blur, progress));
-                        }
+                        number(&mut formatting.shadow, start, depth);
                     }
+                    AnimatableTag::Blur(blur) => number(&mut formatting.blur, 0.0, blur),
                 }
             }
         }
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index d5cda62..e289ada 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -1,36 +1,34 @@
 //! Drawing (`\p` vector) command processing for the software pipeline.
 
 #[cfg(feature = "nostd")]
-use alloc::{vec, vec::Vec};
+use alloc::{string::ToString, vec, vec::Vec};
 #[cfg(not(feature = "nostd"))]
-use std::vec::Vec;
+use std::{string::ToString, vec::Vec};
 
-use ass_core::parser::Event;
 use tiny_skia::Transform;
 
-use super::OwnedStyle;
+use super::text::{resolve_run_colors, RunCtx, TextDefaults};
 use crate::pipeline::{
-    animation::calculate_move_progress, drawing::process_drawing_commands,
-    text_segmenter::TextSegment, IntermediateLayer, StrokeInfo, VectorData,
+    drawing::process_drawing_commands, tag_processor::ProcessedTags, IntermediateLayer, StrokeInfo,
+    VectorData,
 };
-use crate::renderer::RenderContext;
 use crate::utils::RenderError;
 
 impl super::SoftwarePipeline {
+    /// Turn the drawing commands of a segment, whose tags are `tags` at this time, into
+    /// a layer.
     pub(super) fn process_drawing_command(
         &mut self,
-        segment: &TextSegment,
-        _event: &Event,
-        style: Option<&OwnedStyle>,
-        time_cs: u32,
-        context: &RenderContext,
+        plain_text: &str,
+        tags: &ProcessedTags,
+        defaults: &TextDefaults,
+        run: &RunCtx,
+        (x, y): (f32, f32),
+        alignment: u8,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
-        let plain_text = &segment.text;
-        let tags = &segment.tags;
-
         // Try to get drawing path from cache
         let draw_cache_key = crate::cache::DrawingCacheKey {
-            commands: plain_text.clone(),
+            commands: plain_text.to_string(),
         };
 
         let path_opt = if let Some(cached) = self.cache.get_drawing_path(&draw_cache_key) {
@@ -42,27 +40,11 @@ impl super::SoftwarePipeline {
         };
 
         if let Some(path) = path_opt {
-            // Get color from tags or style. `\c` overrides only RGB, so inherit the
-            // alpha from the style (parse_bgr_color leaves alpha at 0 for 6-digit tags).
-            let mut color = if let Some(mut c) = tags.colors.primary {
-                c[3] = style.map_or(255, |s| Self::parse_ass_color(&s.primary_colour)[3]);
-                c
-            } else if let Some(s) = style {
-                Self::parse_ass_color(&s.primary_colour)
-            } else {
-                [255, 255, 255, 255]
-            };
-            // Apply the `\alpha` / `\1a` override (drawings are filled with the
-            // primary colour). parse_alpha already inverted ASS alpha to RGBA
-            // (255 = opaque). Without this, layered glow drawings (each with a
-            // decreasing `\alpha`) all draw opaque and accumulate far too much ink.
-            if let Some(alpha) = tags.colors.alpha1.or(tags.colors.alpha) {
-                color[3] = alpha;
-            }
-
-            // Calculate scaling factors
-            let scale_x = context.width() as f32 / self.play_res_x;
-            let scale_y = context.height() as f32 / self.play_res_y;
+            // A drawing has the colours a text would have, and fades like one.
+            let (color, outline_color, _) = resolve_run_colors(tags, defaults, run);
+
+            let scale_x = run.scale_x;
+            let scale_y = run.scale_y;
 
             // Drawing geometry is in script (PlayRes) units, exactly like `\pos`,
             // so it must be scaled to the render resolution. Previously only the
@@ -70,54 +52,21 @@ impl super::SoftwarePipeline {
             // ~1.5x too large whenever the output differed from PlayRes (the ED
             // sparkle particles, PlayRes 1920 rendered at 1280, were the visible
             // case: oversized shapes ~3x the ink libass produced).
-            let path = path
-                .clone()
-                .transform(Transform::from_scale(scale_x, scale_y))
-                .unwrap_or(path);
-
-            // Calculate position with proper scaling
-            let (x, y) = if let Some((px, py)) = tags.position {
-                // Scale from script coordinates to render coordinates
-                (px * scale_x, py * scale_y)
-            } else if let Some((x1, y1, x2, y2, t1, t2)) = tags.movement {
-                // Movement times are relative to event start
-                let event_start_cs = _event.start_time_cs().unwrap_or(0);
-                let event_end_cs = _event.end_time_cs().unwrap_or(u32::MAX);
-
-                // If t1 and t2 are both 0, movement spans the entire event duration
-                let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
-                    (event_start_cs, event_end_cs)
-                } else {
-                    (
-                        event_start_cs.saturating_add(t1),
-                        event_start_cs.saturating_add(t2),
-                    )
-                };
-
-                let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
-                let x = x1 + (x2 - x1) * progress;
-                let y = y1 + (y2 - y1) * progress;
-                // Scale from script coordinates to render coordinates
-                (x * scale_x, y * scale_y)
-            } else {
-                // Default center (in render coordinates)
-                (context.width() as f32 / 2.0, context.height() as f32 / 2.0)
+            // Each level of `\p` above the first halves it, and `\fscx`/`\fscy` apply.
+            let level = i32::from(tags.drawing_mode.unwrap_or(1)).max(1);
+            let unit = 0.5f32.powi(level - 1);
+            let font_scale_x = tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
+            let font_scale_y = tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0;
+            let Some(path) = path.transform(Transform::from_scale(
+                scale_x * unit * font_scale_x,
+                scale_y * unit * font_scale_y,
+            )) else {
+                return Ok(Vec::new());
             };
 
             // Get path bounds to calculate proper alignment offset
             let bounds = path.bounds();
 
-            // Get alignment from tags or style (default to 5 = center)
-            let alignment = tags
-                .formatting
-                .alignment
-                .map(|a| a as i32)
-                .or(style.and_then(|s| {
-                    // Parse alignment from style - it's stored as a string like "5"
-                    s.alignment.parse::<i32>().ok()
-                }))
-                .unwrap_or(5);
-
             // Calculate alignment offset based on path bounds
             // Alignment uses numpad layout: 1-3 bottom, 4-6 middle, 7-9 top
             let (align_x_offset, align_y_offset) = {
@@ -170,34 +119,21 @@ impl super::SoftwarePipeline {
 
             // `\bord` on a drawing strokes its outline in the `\3c` colour. Scale the
             // width only when ScaledBorderAndShadow is set, mirroring text borders.
-            let border_w = tags
-                .formatting
-                .border_x
-                .or(tags.formatting.border)
-                .map(|w| {
-                    if self.scaled_border_and_shadow {
-                        w * scale_y
-                    } else {
-                        w
-                    }
-                })
-                .unwrap_or(0.0);
-            let stroke = (border_w > 0.0).then(|| {
-                let mut oc = tags.colors.outline.unwrap_or_else(|| {
-                    style
-                        .map(|s| Self::parse_ass_color(&s.outline_colour))
-                        .unwrap_or([0, 0, 0, 255])
-                });
-                oc[3] = style.map_or(255, |s| Self::parse_ass_color(&s.outline_colour)[3]);
-                if let Some(a) = tags.colors.alpha3.or(tags.colors.alpha) {
-                    oc[3] = a;
-                }
-                StrokeInfo {
-                    color: oc,
-                    width: border_w,
-                }
+            let border_w =
+                tags.formatting
+                    .border_x
+                    .or(tags.formatting.border)
+                    .map_or(defaults.outline, |w| {
+                        if self.scaled_border_and_shadow {
+                            w * scale_y
+                        } else {
+                            w
+                        }
+                    });
+            let stroke = (border_w > 0.0).then_some(StrokeInfo {
+                color: outline_color,
+                width: border_w,
             });
-
             return Ok(vec![IntermediateLayer::Vector(VectorData {
                 path: transformed_path,
                 color,
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 0643d57..aaad80d 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -1,57 +1,47 @@
 //! Position, alignment, and margin resolution for the software pipeline.
 
+use super::OwnedStyle;
 use crate::collision::BoundingBox;
 use crate::pipeline::{
-    animation::calculate_move_progress, tag_processor::ProcessedTags, IntermediateLayer,
+    animation::calculate_move_progress, shaping::shape_text_cached, tag_processor::ProcessedTags,
+    text_segmenter::segment_text_with_tags, IntermediateLayer, TextEffect,
 };
 use crate::renderer::RenderContext;
+use crate::utils::RenderError;
 use ass_core::parser::Event;
 
 impl super::SoftwarePipeline {
-    /// Whether an event pins its own position (`\pos`/`\move`) and is therefore
-    /// exempt from collision stacking.
-    pub(super) fn event_is_positioned(event: &Event) -> bool {
-        event.text.contains("\\pos") || event.text.contains("\\move")
-    }
-
-    /// Effective vertical-alignment row for collision: an inline `\an` override
-    /// wins over the style alignment (default 2 = bottom-centre).
-    pub(super) fn effective_alignment(&self, event: &Event) -> u8 {
-        if let Some(idx) = event.text.find("\\an") {
-            if let Some(d) = event.text[idx + 3..]
-                .chars()
-                .next()
-                .and_then(|c| c.to_digit(10))
-            {
-                if (1..=9).contains(&d) {
-                    return d as u8;
-                }
-            }
-        }
+    /// The style of an event: the one it names, or else the default.
+    pub(super) fn event_style(&self, event: &Event) -> Option<&OwnedStyle> {
         self.styles_map
             .get(event.style)
-            .and_then(|s| s.alignment.parse::<u8>().ok())
+            .or(self.default_style.as_ref())
+    }
+
+    /// Whether an event pins its own position (`\pos`/`\move`), which exempts it from
+    /// collision stacking, and its vertical-alignment row for collision: an inline
+    /// `\an` override wins over the style alignment (default 2 = bottom-centre).
+    pub(super) fn event_placement(&self, event: &Event) -> Result<(bool, u8), RenderError> {
+        let segments = segment_text_with_tags(event.text, None)?;
+        let tags = segments.first().map(|segment| &segment.tags);
+        let is_positioned =
+            tags.is_some_and(|tags| tags.position.is_some() || tags.movement.is_some());
+        let alignment = tags
+            .and_then(|tags| tags.formatting.alignment)
+            .or_else(|| self.event_style(event)?.alignment.trim().parse().ok())
             .filter(|a| (1..=9).contains(a))
-            .unwrap_or(2)
+            .unwrap_or(2);
+        Ok((is_positioned, alignment))
     }
 
     /// Event vertical margin in render-pixel space (event margin overrides the
     /// style margin; `0`/empty means "use the style").
     pub(super) fn event_margin_v(&self, event: &Event, scale_y: f32) -> f32 {
-        let style_mv = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_v.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let mv = if event.margin_v.is_empty() || event.margin_v == "0" {
-            style_mv
-        } else {
-            event.margin_v.parse::<f32>().unwrap_or(style_mv)
-        };
-        mv * scale_y
+        let style_margin = self.event_style(event).map(|s| s.margin_v.as_str());
+        Self::margin_or_style(event.margin_v, style_margin) * scale_y
     }
 
-    /// Approximate the rendered bounding box of an event from its text layers.
+    /// The box an event's text layers take up.
     /// Per-line height uses the nominal font size (`font_size / dpi_scale`) so it
     /// matches libass's baseline-to-baseline line box used for stacking.
     pub(super) fn event_bounding_box(&self, layers: &[IntermediateLayer]) -> Option<BoundingBox> {
@@ -60,7 +50,26 @@ impl super::SoftwarePipeline {
         for layer in layers {
             if let IntermediateLayer::Text(text) = layer {
                 let line_height = text.font_size / self.dpi_scale.max(0.01);
-                let width = text.text.chars().count() as f32 * text.font_size * 0.5;
+                let has = |effect: fn(&TextEffect) -> bool| text.effects.iter().any(effect);
+                let (scale_x, scale_y) = text
+                    .effects
+                    .iter()
+                    .find_map(|effect| match effect {
+                        TextEffect::Scale { x, y } => Some((*x, *y)),
+                        _ => None,
+                    })
+                    .unwrap_or((100.0, 100.0));
+                let width = shape_text_cached(
+                    &text.text,
+                    &text.font_family,
+                    text.font_size,
+                    has(|effect| matches!(effect, TextEffect::Bold)),
+                    has(|effect| matches!(effect, TextEffect::Italic)),
+                    &self.font_database,
+                )
+                .map_or(0.0, |shaped| {
+                    shaped.drawn_width(text.spacing, scale_x, scale_y)
+                });
                 min_x = min_x.min(text.x);
                 min_y = min_y.min(text.y);
                 max_x = max_x.max(text.x + width);
@@ -89,12 +98,12 @@ impl super::SoftwarePipeline {
     /// margin, but `0`/empty means "use the style".
     pub(super) fn margin_or_style(event_margin: &str, style_margin: Option<&str>) -> f32 {
         let style = style_margin
-            .and_then(|m| m.parse::<f32>().ok())
+            .and_then(|m| m.trim().parse::<f32>().ok())
+            .filter(|m| m.is_finite())
             .unwrap_or(0.0);
-        if event_margin.is_empty() || event_margin == "0" {
-            style
-        } else {
-            event_margin.parse::<f32>().unwrap_or(style)
+        match event_margin.trim().parse::<f32>() {
+            Ok(margin) if margin != 0.0 && margin.is_finite() => margin,
+            _ => style,
         }
     }
 
@@ -174,40 +183,14 @@ impl super::SoftwarePipeline {
         let scale_x = width / self.play_res_x;
         let scale_y = height / self.play_res_y;
 
-        // Parse margins - use style margins if event margins are 0 or empty
         // Get margins in script coordinates first
-        let style_margin_l = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_l.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let style_margin_r = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_r.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let style_margin_v = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_v.parse::<f32>().ok())
-            .unwrap_or(0.0);
-
-        // Get margins in script coordinates
-        let margin_l_script = if event.margin_l.is_empty() || event.margin_l == "0" {
-            style_margin_l
-        } else {
-            event.margin_l.parse::<f32>().unwrap_or(style_margin_l)
-        };
-        let margin_r_script = if event.margin_r.is_empty() || event.margin_r == "0" {
-            style_margin_r
-        } else {
-            event.margin_r.parse::<f32>().unwrap_or(style_margin_r)
-        };
-        let margin_v_script = if event.margin_v.is_empty() || event.margin_v == "0" {
-            style_margin_v
-        } else {
-            event.margin_v.parse::<f32>().unwrap_or(style_margin_v)
-        };
+        let style = self.event_style(event);
+        let margin_l_script =
+            Self::margin_or_style(event.margin_l, style.map(|s| s.margin_l.as_str()));
+        let margin_r_script =
+            Self::margin_or_style(event.margin_r, style.map(|s| s.margin_r.as_str()));
+        let margin_v_script =
+            Self::margin_or_style(event.margin_v, style.map(|s| s.margin_v.as_str()));
 
         // Scale margins to screen coordinates
         let margin_l = margin_l_script * scale_x;
@@ -237,10 +220,10 @@ impl super::SoftwarePipeline {
         // This is where the aligned point of the text box should be placed
         // ASS alignment uses numpad layout: 1,4,7 = left; 2,5,8 = center; 3,6,9 = right
         let x = match mapped_alignment {
-            1 | 4 | 7 => margin_l,         // Left column
-            2 | 5 | 8 => width / 2.0,      // Center column
-            3 | 6 | 9 => width - margin_r, // Right column
-            _ => width / 2.0,              // Default center
+            1 | 4 | 7 => margin_l,                            // Left column
+            2 | 5 | 8 => (margin_l + width - margin_r) / 2.0, // Center column
+            3 | 6 | 9 => width - margin_r,                    // Right column
+            _ => (margin_l + width - margin_r) / 2.0,         // Default center
         };
 
         // Position calculation following libass approach
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index 748e96d..9b45afe 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -31,32 +31,8 @@ impl super::SoftwarePipeline {
             return Ok(Vec::new());
         }
 
-        // Check if this is a drawing command
-        if let Some(draw_level) = segments[0].tags.drawing_mode {
-            if draw_level > 0 {
-                // Clone the style to avoid borrow issues
-                let style_cloned = self
-                    .styles_map
-                    .get(event.style)
-                    .or(self.default_style.as_ref())
-                    .cloned();
-
-                return self.process_drawing_command(
-                    &segments[0],
-                    event,
-                    style_cloned.as_ref(),
-                    time_cs,
-                    context,
-                );
-            }
-        }
-
         // Clone the style to avoid borrow issues
-        let style_cloned = self
-            .styles_map
-            .get(event.style)
-            .or(self.default_style.as_ref())
-            .cloned();
+        let style_cloned = self.event_style(event).cloned();
 
         // Process text segments with proper style inheritance
         self.process_text_segments(segments, event, style_cloned.as_ref(), time_cs, context)
@@ -275,7 +251,8 @@ impl Pipeline for super::SoftwarePipeline {
         for event in sorted_events {
             let mut event_layers = self.process_event(event, time_cs, context)?;
 
-            if !Self::event_is_positioned(event) {
+            let (is_positioned, alignment) = self.event_placement(event)?;
+            if !is_positioned {
                 if let Some(bbox) = self.event_bounding_box(&event_layers) {
                     let positioned = PositionedEvent {
                         bbox,
@@ -283,7 +260,7 @@ impl Pipeline for super::SoftwarePipeline {
                         margin_v: self.event_margin_v(event, scale_y) as i32,
                         margin_l: 0,
                         margin_r: 0,
-                        alignment: self.effective_alignment(event),
+                        alignment,
                         priority: 0,
                     };
                     let resolved = self.collision_resolver.find_position(positioned);
diff --git a/crates/ass-renderer/src/pipeline/build/style.rs b/crates/ass-renderer/src/pipeline/build/style.rs
index 9495da1..64592ad 100644
--- a/crates/ass-renderer/src/pipeline/build/style.rs
+++ b/crates/ass-renderer/src/pipeline/build/style.rs
@@ -25,8 +25,7 @@ pub(super) struct OwnedStyle {
     pub(super) scale_x: String,
     pub(super) scale_y: String,
     pub(super) spacing: String,
-    #[allow(dead_code)] // Text rotation angle - stored for completeness
-    angle: String,
+    pub(super) angle: String,
     #[allow(dead_code)] // Border rendering style - stored for completeness
     pub(super) border_style: String,
     pub(super) outline: String,
@@ -83,31 +82,24 @@ impl super::SoftwarePipeline {
         // ASS colors are in &HAABBGGRR format where:
         // AA = Alpha (00 = opaque, FF = transparent)
         // BB = Blue, GG = Green, RR = Red
-        let color_trimmed = color.trim_end_matches('&');
-        if let Some(hex) = color_trimmed.strip_prefix("&H") {
-            if let Ok(value) = u32::from_str_radix(hex, 16) {
-                // Check if this is AABBGGRR (8 hex digits) or BBGGRR (6 hex digits)
-                let (alpha, bgr_value) = if hex.len() >= 8 {
-                    // Full AABBGGRR format
-                    let alpha = ((value >> 24) & 0xFF) as u8;
-                    // Convert ASS alpha (00=opaque, FF=transparent) to RGBA (00=transparent, FF=opaque)
-                    let rgba_alpha = 255 - alpha;
-                    (rgba_alpha, value & 0xFFFFFF)
-                } else {
-                    // Legacy BBGGRR format without alpha, assume opaque
-                    (255u8, value)
-                };
-
-                // Extract colors in BGR order
-                let r = (bgr_value & 0xFF) as u8; // Last 2 hex digits = Red
-                let g = ((bgr_value >> 8) & 0xFF) as u8; // Middle 2 hex digits = Green
-                let b = ((bgr_value >> 16) & 0xFF) as u8; // First 2 hex digits = Blue
-
-                // Return in RGBA order for rendering
-                return [r, g, b, alpha];
+        // Without an alpha they are opaque, and without &H a decimal number.
+        let color = color.trim().trim_end_matches('&');
+        let hex = color
+            .strip_prefix("&H")
+            .or_else(|| color.strip_prefix("&h"))
+            .or_else(|| color.strip_prefix("0x"));
+        let value = match hex {
+            Some(hex) => u32::from_str_radix(hex, 16).ok(),
+            None => color.parse::<i64>().ok().map(|value| value as u32),
+        };
+        match value {
+            Some(value) => {
+                let [alpha, blue, green, red] = value.to_be_bytes();
+                // Convert ASS alpha (00=opaque, FF=transparent) to RGBA (00=transparent, FF=opaque)
+                [red, green, blue, 255 - alpha]
             }
+            None => [255, 255, 255, 255], // Default white, opaque
         }
-        [255, 255, 255, 255] // Default white, opaque
     }
 
     /// Parse alpha from ASS format
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index b84feca..9ef1d0a 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -55,7 +55,7 @@ pub(super) fn split_into_logical_lines(segments: Vec<TextSegment>) -> Vec<Vec<Te
 
 /// Resolve the primary, outline, and shadow colours for a run, applying the
 /// `\1a`/`\3a`/`\4a` alpha overrides and any `\fad`/`\fade` effect.
-pub(super) fn resolve_run_colors(
+pub(in crate::pipeline::build) fn resolve_run_colors(
     tags: &ProcessedTags,
     defaults: &TextDefaults,
     ctx: &RunCtx,
@@ -63,8 +63,6 @@ pub(super) fn resolve_run_colors(
     let default_primary_color = defaults.primary_color;
     let default_outline_color = defaults.outline_color;
     let default_back_color = defaults.back_color;
-    let event = ctx.event;
-    let time_cs = ctx.time_cs;
 
     // Get colors with proper inheritance
     let mut color = tags.colors.primary.unwrap_or(default_primary_color);
@@ -93,68 +91,92 @@ pub(super) fn resolve_run_colors(
         shadow_color[3] = alpha;
     }
 
-    // Apply fade effect
-    if let Some(fade) = &tags.fade {
-        // For \fad(t1,t2), t1 is fade-in duration, t2 is fade-out duration
-        // Calculate actual fade times relative to event
-        let event_start = event.start_time_cs().unwrap_or(0);
-        let event_end = event.end_time_cs().unwrap_or(u32::MAX);
-
-        let fade_alpha = if let Some(alpha_mid) = fade.alpha_middle {
-            // Complex \fade(a1,a2,a3,t1,t2,t3,t4): a 5-segment piecewise
-            // alpha over event-relative times (a1 before t1, ramp a1->a2
-            // over t1..t2, hold a2 over t2..t3, ramp a2->a3 over t3..t4,
-            // a3 after t4). ASS alphas are inverted (00=opaque).
-            let (a1, a2, a3) = (
-                fade.alpha_start as f32,
-                alpha_mid as f32,
-                fade.alpha_end as f32,
-            );
-            let t1 = event_start.saturating_add(fade.time_start);
-            let t2 = t1.saturating_add(fade.time_fade_in.unwrap_or(0));
-            let t4 = event_start.saturating_add(fade.time_end);
-            let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
-            let ass_alpha = if time_cs <= t1 {
-                a1
-            } else if time_cs < t2 {
-                a1 + (a2 - a1) * (time_cs - t1) as f32 / (t2 - t1).max(1) as f32
-            } else if time_cs <= t3 {
-                a2
-            } else if time_cs < t4 {
-                a2 + (a3 - a2) * (time_cs - t3) as f32 / t4.saturating_sub(t3).max(1) as f32
-            } else {
-                a3
-            };
-            // Convert ASS alpha (00=opaque, FF=transparent) to opacity.
-            255.0 - ass_alpha
-        } else {
-            // Simple fade - times are durations
-            let fade_in_end = event_start.saturating_add(fade.time_start);
-            let fade_out_start = event_end.saturating_sub(fade.time_end);
-
-            if time_cs < fade_in_end {
-                // During fade in
-                let progress =
-                    (time_cs.saturating_sub(event_start)) as f32 / fade.time_start.max(1) as f32;
-                255.0 * progress.min(1.0)
-            } else if time_cs >= fade_out_start && fade_out_start < event_end {
-                // During fade out
-                let progress =
-                    (event_end.saturating_sub(time_cs)) as f32 / fade.time_end.max(1) as f32;
-                255.0 * progress.min(1.0)
-            } else {
-                // Fully visible
-                255.0
-            }
-        };
-
-        // Apply fade to all color components (primary, outline, shadow)
-        let fade_factor = fade_alpha / 255.0;
-
+    // Apply fade effect to all color components (primary, outline, shadow)
+    let fade_factor = fade_factor(tags, ctx);
+    for color in [&mut color, &mut outline_color, &mut shadow_color] {
         color[3] = (color[3] as f32 * fade_factor) as u8;
-        outline_color[3] = (outline_color[3] as f32 * fade_factor) as u8;
-        shadow_color[3] = (shadow_color[3] as f32 * fade_factor) as u8;
     }
 
     (color, outline_color, shadow_color)
 }
+
+/// Resolve the secondary colour, which karaoke text has until it is sung, like the
+/// other colours.
+pub(super) fn resolve_secondary_color(
+    tags: &ProcessedTags,
+    defaults: &TextDefaults,
+    ctx: &RunCtx,
+) -> [u8; 4] {
+    let mut color = tags.colors.secondary.unwrap_or(defaults.secondary_color);
+    // The tag overrides only RGB.
+    color[3] = tags
+        .colors
+        .alpha2
+        .or(tags.colors.alpha)
+        .unwrap_or(defaults.secondary_color[3]);
+    color[3] = (color[3] as f32 * fade_factor(tags, ctx)) as u8;
+    color
+}
+
+/// How much of its opacity a `\fad`/`\fade` leaves the event.
+fn fade_factor(tags: &ProcessedTags, ctx: &RunCtx) -> f32 {
+    let Some(fade) = &tags.fade else {
+        return 1.0;
+    };
+    let event = ctx.event;
+    let time_cs = ctx.time_cs;
+
+    // For \fad(t1,t2), t1 is fade-in duration, t2 is fade-out duration
+    // Calculate actual fade times relative to event
+    let event_start = event.start_time_cs().unwrap_or(0);
+    let event_end = event.end_time_cs().unwrap_or(u32::MAX);
+
+    let opacity = if let Some(alpha_mid) = fade.alpha_middle {
+        // Complex \fade(a1,a2,a3,t1,t2,t3,t4): a 5-segment piecewise
+        // alpha over event-relative times (a1 before t1, ramp a1->a2
+        // over t1..t2, hold a2 over t2..t3, ramp a2->a3 over t3..t4,
+        // a3 after t4). ASS alphas are inverted (00=opaque).
+        let (a1, a2, a3) = (
+            fade.alpha_start as f32,
+            alpha_mid as f32,
+            fade.alpha_end as f32,
+        );
+        let t1 = event_start.saturating_add(fade.time_start);
+        let t2 = t1.saturating_add(fade.time_fade_in.unwrap_or(0));
+        let t4 = event_start.saturating_add(fade.time_end);
+        let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
+        let ass_alpha = if time_cs <= t1 {
+            a1
+        } else if time_cs < t2 {
+            a1 + (a2 - a1) * (time_cs - t1) as f32 / (t2 - t1).max(1) as f32
+        } else if time_cs <= t3 {
+            a2
+        } else if time_cs < t4 {
+            a2 + (a3 - a2) * (time_cs - t3) as f32 / t4.saturating_sub(t3).max(1) as f32
+        } else {
+            a3
+        };
+        // Convert ASS alpha (00=opaque, FF=transparent) to opacity.
+        255.0 - ass_alpha
+    } else {
+        // Simple fade - times are durations
+        let fade_in_end = event_start.saturating_add(fade.time_start);
+        let fade_out_start = event_end.saturating_sub(fade.time_end);
+
+        if time_cs < fade_in_end {
+            // During fade in
+            let progress =
+                (time_cs.saturating_sub(event_start)) as f32 / fade.time_start.max(1) as f32;
+            255.0 * progress.min(1.0)
+        } else if time_cs >= fade_out_start && fade_out_start < event_end {
+            // During fade out
+            let progress = (event_end.saturating_sub(time_cs)) as f32 / fade.time_end.max(1) as f32;
+            255.0 * progress.min(1.0)
+        } else {
+            // Fully visible
+            255.0
+        }
+    };
+
+    opacity / 255.0
+}
diff --git a/crates/ass-renderer/src/pipeline/build/text/defaults.rs b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
index e81f4ca..8690758 100644
--- a/crates/ass-renderer/src/pipeline/build/text/defaults.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
@@ -15,18 +15,19 @@ impl super::super::SoftwarePipeline {
         // Get base style properties
         let default_font_name = style.map(|s| s.fontname.as_ref()).unwrap_or("Arial");
         let default_font_size_base = style
-            .map(|s| s.fontsize.parse::<f32>().unwrap_or(48.0))
+            .and_then(|s| number(&s.fontsize))
+            .filter(|&size| size > 0.0)
             .unwrap_or(48.0);
         // Font sizes in ASS are already in the script resolution coordinate system
         // They need to be scaled according to the PlayResY to output resolution ratio
         // This matches libass behavior
         // Also apply DPI scale to match libass (72 DPI vs 96 DPI)
         let _default_font_size = default_font_size_base * scale_y * self.dpi_scale;
-        // In ASS format: -1 = true (bold/italic), 0 = false
-        let default_bold = style.map(|s| s.bold == "-1").unwrap_or(false);
-        let default_italic = style.map(|s| s.italic == "-1").unwrap_or(false);
-        let default_underline = style.map(|s| s.underline == "-1").unwrap_or(false);
-        let default_strikeout = style.map(|s| s.strikeout == "-1").unwrap_or(false);
+        // In ASS format: -1 = true (bold/italic), 0 = false; any other number is true
+        let default_bold = style.is_some_and(|s| is_set(&s.bold));
+        let default_italic = style.is_some_and(|s| is_set(&s.italic));
+        let default_underline = style.is_some_and(|s| is_set(&s.underline));
+        let default_strikeout = style.is_some_and(|s| is_set(&s.strikeout));
 
         // Parse style colors
         let default_primary_color = style
@@ -44,10 +45,10 @@ impl super::super::SoftwarePipeline {
 
         // Parse style formatting values and scale them only if ScaledBorderAndShadow is enabled
         let default_outline_base = style
-            .map(|s| s.outline.parse::<f32>().unwrap_or(2.0))
+            .map(|s| number(&s.outline).unwrap_or(2.0))
             .unwrap_or(2.0);
         let default_shadow_base = style
-            .map(|s| s.shadow.parse::<f32>().unwrap_or(2.0))
+            .map(|s| number(&s.shadow).unwrap_or(2.0))
             .unwrap_or(2.0);
         // Scale outline and shadow from script coordinates only if ScaledBorderAndShadow is true
         let default_outline = if self.scaled_border_and_shadow {
@@ -61,16 +62,18 @@ impl super::super::SoftwarePipeline {
             default_shadow_base
         };
         let default_scale_x = style
-            .map(|s| s.scale_x.parse::<f32>().unwrap_or(100.0))
+            .map(|s| number(&s.scale_x).unwrap_or(100.0))
             .unwrap_or(100.0);
         let default_scale_y = style
-            .map(|s| s.scale_y.parse::<f32>().unwrap_or(100.0))
+            .map(|s| number(&s.scale_y).unwrap_or(100.0))
             .unwrap_or(100.0);
         let default_spacing = style
-            .map(|s| s.spacing.parse::<f32>().unwrap_or(0.0))
+            .map(|s| number(&s.spacing).unwrap_or(0.0))
             .unwrap_or(0.0);
+        let default_angle = style.and_then(|s| number(&s.angle)).unwrap_or(0.0);
         let default_alignment = style
-            .map(|s| s.alignment.parse::<u8>().unwrap_or(2))
+            .and_then(|s| s.alignment.trim().parse::<u8>().ok())
+            .filter(|a| (1..=9).contains(a))
             .unwrap_or(2);
 
         TextDefaults {
@@ -86,10 +89,27 @@ impl super::super::SoftwarePipeline {
             back_color: default_back_color,
             outline: default_outline,
             shadow: default_shadow,
+            outline_base: default_outline_base,
+            shadow_base: default_shadow_base,
             scale_x: default_scale_x,
             scale_y: default_scale_y,
             spacing: default_spacing,
+            angle: default_angle,
             alignment: default_alignment,
         }
     }
 }
+
+/// The value of a numeric style field
+fn number(field: &str) -> Option<f32> {
+    field
+        .trim()
+        .parse()
+        .ok()
+        .filter(|value: &f32| value.is_finite())
+}
+
+/// Whether a flag of a style is on
+fn is_set(field: &str) -> bool {
+    field.trim().parse::<i32>().is_ok_and(|value| value != 0)
+}
diff --git a/crates/ass-renderer/src/pipeline/build/text/effects.rs b/crates/ass-renderer/src/pipeline/build/text/effects.rs
index fbd48d9..fc14bb6 100644
--- a/crates/ass-renderer/src/pipeline/build/text/effects.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/effects.rs
@@ -149,7 +149,11 @@ impl super::super::SoftwarePipeline {
         // Add rotation effects if present
         let rotation_x = tags.font.rotation_x.unwrap_or(0.0);
         let rotation_y = tags.font.rotation_y.unwrap_or(0.0);
-        let rotation_z = tags.font.rotation_z.or(tags.font.angle).unwrap_or(0.0);
+        let rotation_z = tags
+            .font
+            .rotation_z
+            .or(tags.font.angle)
+            .unwrap_or(defaults.angle);
         if rotation_x != 0.0 || rotation_y != 0.0 || rotation_z != 0.0 {
             // `\org` sets the rotation centre in script coordinates; scale
             // it to screen space for the backend.
@@ -163,13 +167,13 @@ impl super::super::SoftwarePipeline {
         }
 
         // Add shear effects if present
-        if let Some(shear_x) = tags.shear_x {
-            if shear_x != 0.0 || tags.shear_y.unwrap_or(0.0) != 0.0 {
-                layer.effects.push(TextEffect::Shear {
-                    x: shear_x,
-                    y: tags.shear_y.unwrap_or(0.0),
-                });
-            }
+        let shear_x = tags.shear_x.unwrap_or(0.0);
+        let shear_y = tags.shear_y.unwrap_or(0.0);
+        if shear_x != 0.0 || shear_y != 0.0 {
+            layer.effects.push(TextEffect::Shear {
+                x: shear_x,
+                y: shear_y,
+            });
         }
 
         // Add a scale effect when either axis is non-100%. \fscy is folded
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index a044afe..d76cedd 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -2,16 +2,25 @@
 //! per-run colours/alpha/fade, effects, and the positioned `TextData` layers.
 
 #[cfg(feature = "nostd")]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
 #[cfg(not(feature = "nostd"))]
-use std::{string::ToString, vec::Vec};
+use std::{
+    string::{String, ToString},
+    vec::Vec,
+};
 
+use ahash::AHashMap;
 use ass_core::parser::Event;
 use smallvec::SmallVec;
 
 use super::OwnedStyle;
 use crate::pipeline::{
-    shaping::shape_text_cached, tag_processor::KaraokeStyle, text_segmenter::TextSegment,
+    shaping::shape_text_cached,
+    tag_processor::{KaraokeStyle, ProcessedTags},
+    text_segmenter::TextSegment,
     IntermediateLayer, TextData, TextEffect,
 };
 use crate::renderer::RenderContext;
@@ -23,8 +32,11 @@ mod effects;
 mod position;
 mod types;
 
-use colors::{resolve_run_colors, split_into_logical_lines};
-use types::{EffectColors, LineLayout, Pen, RunCtx};
+pub(super) use colors::resolve_run_colors;
+pub(super) use types::{RunCtx, TextDefaults};
+
+use colors::{resolve_secondary_color, split_into_logical_lines};
+use types::{EffectColors, LineLayout, TextRun};
 
 impl super::SoftwarePipeline {
     pub(super) fn process_text_segments(
@@ -44,8 +56,31 @@ impl super::SoftwarePipeline {
         // Resolve the style-derived defaults (font/size/colours/formatting) once.
         let defaults = self.resolve_text_defaults(style, scale_y);
 
-        // Get base position from first segment - we'll adjust per-segment as needed
-        let _base_tags = &segments[0].tags;
+        // Styles named by an \r, which the runs after it take their defaults from.
+        let reset_styles: AHashMap<String, OwnedStyle> = segments
+            .iter()
+            .filter_map(|segment| segment.tags.reset.as_ref())
+            .filter_map(|name| Some((name.clone(), self.styles_map.get(name)?.clone())))
+            .collect();
+        let style_of = |tags: &ProcessedTags| {
+            let named = tags.reset.as_ref().and_then(|name| reset_styles.get(name));
+            named.or(style)
+        };
+
+        let event_tags = &segments[0].tags;
+        let is_positioned = event_tags.position.is_some() || event_tags.movement.is_some();
+        let alignment = event_tags
+            .formatting
+            .alignment
+            .unwrap_or(defaults.alignment);
+        // The point the text is aligned to.
+        let (anchor_x, anchor_y) = self.calculate_position_from_tags(
+            event_tags,
+            event,
+            context,
+            time_cs,
+            defaults.alignment,
+        );
 
         // Effective wrap style: a `\q` override (clamped to 0..=3, like libass which
         // falls back to the track style on an invalid value) takes precedence over
@@ -63,7 +98,7 @@ impl super::SoftwarePipeline {
         // explicit \N breaks, already split into logical_lines); positioned events
         // (\pos/\move) keep their explicit layout. WrapStyle 1 wraps greedily with
         // no balancing; 0/3 balance the lines (libass smart wrapping).
-        if !Self::event_is_positioned(event) && event_wrap_style != 2 {
+        if !is_positioned && event_wrap_style != 2 {
             let margin_l =
                 Self::margin_or_style(event.margin_l, style.map(|s| s.margin_l.as_str()));
             let margin_r =
@@ -72,15 +107,22 @@ impl super::SoftwarePipeline {
             let balance = event_wrap_style != 1;
             let mut wrapped: Vec<Vec<TextSegment>> = Vec::with_capacity(logical_lines.len());
             for line in logical_lines {
+                // Drawing commands are not words.
+                if line.iter().any(is_drawing) {
+                    wrapped.push(line);
+                    continue;
+                }
+                let lead = line.first().map(|segment| &segment.tags);
+                let lead = self.resolve_text_defaults(lead.map_or(style, style_of), scale_y);
                 wrapped.extend(self.wrap_segments(
                     &line,
-                    defaults.font_name,
-                    defaults.font_size_base,
-                    defaults.scale_y,
-                    defaults.bold,
-                    defaults.italic,
-                    defaults.spacing,
-                    defaults.scale_x,
+                    lead.font_name,
+                    lead.font_size_base,
+                    lead.scale_y,
+                    lead.bold,
+                    lead.italic,
+                    lead.spacing,
+                    lead.scale_x,
                     scale_y,
                     available,
                     balance,
@@ -105,170 +147,148 @@ impl super::SoftwarePipeline {
         let max_font_size = logical_lines
             .iter()
             .flatten()
-            .filter_map(|seg| seg.tags.font.size)
+            .filter(|segment| !is_drawing(segment))
+            .map(|segment| match segment.tags.font.size {
+                Some(size) if size > 0.0 => size,
+                _ => {
+                    self.resolve_text_defaults(style_of(&segment.tags), scale_y)
+                        .font_size_base
+                }
+            })
             .fold(defaults.font_size_base, f32::max);
         let estimated_line_height = max_font_size * scale_y;
 
-        let _total_text_height = estimated_line_height * num_lines as f32 * line_spacing_multiplier;
-
-        // Process each logical line
-        let mut line_y_offset = 0.0;
-
         let run_ctx = RunCtx {
             event,
-            context,
             time_cs,
             scale_x,
             scale_y,
         };
 
+        // Process each logical line
         for (line_index, line_segments) in logical_lines.into_iter().enumerate() {
-            // For a multi-segment line, total rendered width so it is aligned as
-            // one unit rather than each segment re-centering on its own width. A
-            // single-segment line uses its per-segment shaped width below (which
-            // already reflects \t animations), so skip the pre-pass there.
-            let is_multi_segment = line_segments.len() > 1;
-            let line_total_width: f32 = if is_multi_segment {
-                line_segments
-                    .iter()
-                    .map(|seg| {
-                        let size = seg.tags.font.size.unwrap_or(defaults.font_size_base)
-                            * scale_y
-                            * (seg.tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0)
-                            * self.dpi_scale;
-                        let fsx = seg.tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
-                        let font = seg.tags.font.name.as_deref().unwrap_or(defaults.font_name);
-                        let bold = seg.tags.formatting.bold.unwrap_or(defaults.bold);
-                        let italic = seg.tags.formatting.italic.unwrap_or(defaults.italic);
-                        shape_text_cached(&seg.text, font, size, bold, italic, &self.font_database)
-                            .map_or(0.0, |sh| sh.width * fsx)
-                    })
-                    .sum()
-            } else {
-                0.0
-            };
-            let mut pen = Pen {
-                current_x: 0.0,
-                needs_initial_position: true,
-            };
-
-            let layout = LineLayout {
-                is_multi_segment,
-                line_total_width,
-                num_lines,
-                line_index,
-                estimated_line_height,
-                line_spacing_multiplier,
-                line_y_offset,
-            };
-
+            // Shape the line's runs first: the line is aligned as one unit, by the
+            // width of all of them.
+            let mut runs = Vec::with_capacity(line_segments.len());
             for segment in line_segments {
-                let mut tags = segment.tags.clone();
-                let line_text = &segment.text;
-
-                // Check if this segment is in drawing mode
-                if let Some(drawing_mode) = tags.drawing_mode {
-                    if drawing_mode > 0 {
-                        // Process drawing commands
-                        if let Ok(drawing_layers) =
-                            self.process_drawing_command(&segment, event, style, time_cs, context)
-                        {
-                            for layer in drawing_layers {
-                                all_layers.push(layer);
-                            }
-                        }
-                        continue; // Skip text processing for drawing segments
-                    }
-                }
+                let style = style_of(&segment.tags);
+                let defaults = self.resolve_text_defaults(style, scale_y);
 
                 // Apply transform animations if present
-                let event_start_cs = event.start_time_cs().unwrap_or(0);
-                let default_colors = (
-                    defaults.primary_color,
-                    defaults.secondary_color,
-                    defaults.outline_color,
-                    defaults.back_color,
-                );
+                let mut tags = segment.tags;
                 self.apply_transform_animations(
                     &mut tags,
-                    event_start_cs,
+                    event.start_time_cs().unwrap_or(0),
                     event.end_time_cs().unwrap_or(u32::MAX),
                     time_cs,
-                    default_colors,
-                    defaults.font_size_base,
+                    &defaults,
                 );
 
-                // Shape the text first to get dimensions for proper alignment
-                // Get base font size and scale factors
+                // Process drawing commands
+                if tags.drawing_mode.is_some_and(|level| level > 0) {
+                    if let Ok(drawing_layers) = self.process_drawing_command(
+                        &segment.text,
+                        &tags,
+                        &defaults,
+                        &run_ctx,
+                        (anchor_x, anchor_y),
+                        alignment,
+                    ) {
+                        all_layers.extend(drawing_layers);
+                    }
+                    continue; // Skip text processing for drawing segments
+                }
+
+                // Get base font size and scale factors; a size that is none is the style's
+                tags.font.size = tags.font.size.filter(|&size| size > 0.0);
                 let base_font_size = tags.font.size.unwrap_or(defaults.font_size_base); // Use unscaled base size
-                let font_scale_x = tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
-                let font_scale_y = tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0;
+                let font_scale_x = tags.font.scale_x.unwrap_or(defaults.scale_x);
+                let font_scale_y = tags.font.scale_y.unwrap_or(defaults.scale_y);
                 // Apply both resolution scaling, percentage scaling, and DPI scaling
-                let actual_font_size = base_font_size * scale_y * font_scale_y * self.dpi_scale;
-
-                let font_to_use = tags.font.name.as_deref().unwrap_or(defaults.font_name);
+                let font_size = base_font_size * scale_y * (font_scale_y / 100.0) * self.dpi_scale;
 
                 let shaped = shape_text_cached(
-                    line_text,
-                    font_to_use,
-                    actual_font_size,
+                    &segment.text,
+                    tags.font.name.as_deref().unwrap_or(defaults.font_name),
+                    font_size,
                     tags.formatting.bold.unwrap_or(defaults.bold),
                     tags.formatting.italic.unwrap_or(defaults.italic),
                     &self.font_database,
                 )?;
 
-                // Calculate position for this segment
-                let (segment_x, segment_y) = self.position_segment(
-                    &tags,
-                    &shaped,
-                    &layout,
-                    &mut pen,
-                    &run_ctx,
-                    defaults.alignment,
-                );
-
-                // Get font information with proper inheritance
-                let font_family = tags.font.name.as_deref().unwrap_or(defaults.font_name);
-                // Font size was already calculated above for shaping
-                // Use the same value here for consistency
-                let font_size = actual_font_size;
-
-                // Note: 'shaped' was already created above for alignment calculation
-
-                // Resolve colours, alpha overrides, and fade for this run.
-                let (color, outline_color, shadow_color) =
-                    resolve_run_colors(&tags, &defaults, &run_ctx);
-
                 // Get spacing value (from tags or default style). `\fsp`/style
                 // spacing is in script units; scale it to screen like positions so
                 // the rendered run width (and thus wrapping) matches libass, which
                 // applies fsp * scale. Unscaled, spaced text drew ~2% too wide.
                 let spacing = tags.font.spacing.unwrap_or(defaults.spacing) * scale_x;
+                let width = shaped.drawn_width(spacing, font_scale_x, font_scale_y);
+
+                runs.push(TextRun {
+                    text: segment.text,
+                    tags,
+                    style,
+                    defaults,
+                    font_size,
+                    spacing,
+                    height: shaped.height,
+                    baseline: shaped.baseline,
+                    width,
+                });
+            }
+
+            let layout = LineLayout {
+                width: runs.iter().map(|run| run.width).sum(),
+                height: runs.iter().map(|run| run.height).fold(0.0, f32::max),
+                num_lines,
+                line_index,
+                line_height: estimated_line_height * line_spacing_multiplier,
+            };
+            let (line_x, line_y) = self.position_line(&layout, (anchor_x, anchor_y), alignment);
+            // The runs of a line stand on one baseline.
+            let baseline = runs.iter().map(|run| run.baseline).fold(0.0, f32::max);
+            let mut pen_x = line_x;
+
+            for run in runs {
+                let TextRun {
+                    tags,
+                    style,
+                    defaults,
+                    ..
+                } = &run;
+                let segment_x = pen_x;
+                let segment_y = line_y + baseline - run.baseline;
+                pen_x += run.width;
+
+                // Get font information with proper inheritance
+                let font_family = tags.font.name.as_deref().unwrap_or(defaults.font_name);
+                // Resolve colours, alpha overrides, and fade for this run.
+                let (color, outline_color, shadow_color) =
+                    resolve_run_colors(tags, defaults, &run_ctx);
 
                 // Create text layer
                 let mut layer = TextData {
-                    text: line_text.to_string(),
+                    text: run.text.clone(),
                     font_family: font_family.to_string(),
-                    font_size,
+                    font_size: run.font_size,
                     color,
                     x: segment_x,
                     y: segment_y,
                     effects: SmallVec::new(),
-                    spacing,
+                    spacing: run.spacing,
                 };
 
                 // Add effects (formatting, outline/shadow/blur/opaque-box, rotation,
                 // shear, scale, clip, baseline offset).
                 self.push_text_effects(
                     &mut layer,
-                    &tags,
+                    tags,
                     EffectColors {
                         outline_color,
                         shadow_color,
                     },
                     &run_ctx,
-                    &defaults,
-                    style,
+                    defaults,
+                    *style,
                 );
 
                 // Handle karaoke - track per-syllable timing
@@ -289,11 +309,8 @@ impl super::SoftwarePipeline {
                         (time_cs - syllable_start) as f32 / karaoke.duration as f32
                     };
 
-                    // Unsung syllables use the secondary colour. `\2c` overrides are
-                    // 6-digit (no alpha), so inherit alpha from the style default.
-                    let mut karaoke_secondary =
-                        tags.colors.secondary.unwrap_or(defaults.secondary_color);
-                    karaoke_secondary[3] = defaults.secondary_color[3];
+                    // Unsung syllables use the secondary colour.
+                    let karaoke_secondary = resolve_secondary_color(tags, defaults, &run_ctx);
 
                     // Add karaoke effect with correct progress
                     layer.effects.push(TextEffect::Karaoke {
@@ -308,25 +325,15 @@ impl super::SoftwarePipeline {
                     });
                 }
 
-                // Advance the pen to the end of this segment so the next run on the
-                // line continues right after it. Always use the real shaped advance:
-                // the old character-count estimate (used whenever alignment was set,
-                // including inherited `\an`) over-advanced and left gaps between the
-                // runs of a multi-segment line.
-                if let Some(advance) = shaped.total_advance() {
-                    pen.current_x += advance * font_scale_x;
-                }
-
                 all_layers.push(IntermediateLayer::Text(layer));
             }
-
-            // Move to next line. Advance by the nominal line height (font size in
-            // render resolution), matching libass's baseline-to-baseline spacing.
-            // `line_height` carries the 0.9 glyph dpi_scale, which libass does not
-            // apply to line advance, so it must not be used here.
-            line_y_offset += estimated_line_height * line_spacing_multiplier;
         }
 
         Ok(all_layers)
     }
 }
+
+/// Whether a segment holds drawing commands rather than text
+fn is_drawing(segment: &TextSegment) -> bool {
+    segment.tags.drawing_mode.is_some_and(|level| level > 0)
+}
diff --git a/crates/ass-renderer/src/pipeline/build/text/position.rs b/crates/ass-renderer/src/pipeline/build/text/position.rs
index 2bf4840..9fda359 100644
--- a/crates/ass-renderer/src/pipeline/build/text/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/position.rs
@@ -1,183 +1,44 @@
-//! Per-segment positioning for the software pipeline: anchoring lines, applying
-//! alignment offsets, and advancing the line pen.
+//! Positioning of an event's lines for the software pipeline.
 
-use super::types::{LineLayout, Pen, RunCtx};
-use crate::pipeline::shaping::ShapedText;
-use crate::pipeline::tag_processor::ProcessedTags;
+use super::types::LineLayout;
 
 impl super::super::SoftwarePipeline {
-    /// Compute the top-left render position of a segment, advancing the line's
-    /// pen and seeding it on the first segment of the line.
-    pub(super) fn position_segment(
+    /// Compute the top-left corner of a line of an event that is aligned to `anchor`.
+    ///
+    /// The lines of an event are one block, wherever the anchor comes from.
+    pub(super) fn position_line(
         &self,
-        tags: &ProcessedTags,
-        shaped: &ShapedText,
         layout: &LineLayout,
-        pen: &mut Pen,
-        ctx: &RunCtx,
-        default_alignment: u8,
+        anchor: (f32, f32),
+        alignment: u8,
     ) -> (f32, f32) {
-        let event = ctx.event;
-        let context = ctx.context;
-        let time_cs = ctx.time_cs;
-        let is_multi_segment = layout.is_multi_segment;
-        let line_total_width = layout.line_total_width;
-        let num_lines = layout.num_lines;
-        let line_index = layout.line_index;
-        let estimated_line_height = layout.estimated_line_height;
-        let line_spacing_multiplier = layout.line_spacing_multiplier;
-        let line_y_offset = layout.line_y_offset;
+        let (anchor_x, anchor_y) = anchor;
 
-        if tags.position.is_some() || tags.movement.is_some() {
-            // Explicit \pos/\move override (inherited by every segment of the
-            // line). The first segment anchors the whole line — centred on the
-            // full line width for multi-segment lines — and seeds current_x;
-            // later segments continue left-to-right from current_x instead of
-            // each re-centering on the same point (which stacked karaoke and
-            // colour-split segments on top of one another).
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_tags(tags, event, context, time_cs, default_alignment);
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            if pen.needs_initial_position {
-                let line_width = if is_multi_segment {
-                    line_total_width
-                } else {
-                    shaped.width
-                };
-                let (x, y) = self.apply_alignment_offset(
-                    anchor_x,
-                    anchor_y,
-                    line_width,
-                    shaped.height,
-                    alignment,
-                );
-                pen.current_x = x;
-                pen.needs_initial_position = false;
-                (x, y)
-            } else {
-                let (_, y) = self.apply_alignment_offset(
-                    anchor_x,
-                    anchor_y,
-                    shaped.width,
-                    shaped.height,
-                    alignment,
-                );
-                (pen.current_x, y)
-            }
-        } else if pen.needs_initial_position {
-            // First segment of the line: position the whole line. Later
-            // segments continue from current_x (below) so they lay out
-            // left-to-right instead of each re-centering.
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_alignment(alignment, event, context);
-
-            // For multi-line text, adjust positioning based on alignment
-            let adjusted_y = if num_lines > 1 {
-                match alignment {
-                    1..=3 => {
-                        // Bottom alignment: stack lines upward from bottom
-                        // First line is at the bottom, subsequent lines above it
-                        let line_offset = (num_lines - 1 - line_index) as f32
-                            * estimated_line_height
-                            * line_spacing_multiplier;
-                        anchor_y - line_offset
-                    }
-                    7..=9 => {
-                        // Top alignment: stack lines downward from top
-                        anchor_y + line_y_offset
-                    }
-                    _ => {
-                        // Middle alignment: center the block vertically
-                        let block_offset = -((num_lines as f32 - 1.0)
-                            * estimated_line_height
-                            * line_spacing_multiplier
-                            / 2.0);
-                        anchor_y + block_offset + line_y_offset
-                    }
-                }
-            } else {
-                anchor_y
-            };
-
-            // For multi-line text, use the line height for vertical positioning
-            // to ensure proper spacing between lines
-            let height_for_positioning = if num_lines > 1 {
-                estimated_line_height
-            } else {
-                shaped.height
-            };
-
-            // Multi-segment lines centre on the whole-line width; single
-            // segments use their own shaped width (reflects \t animations).
-            let line_width = if is_multi_segment {
-                line_total_width
-            } else {
-                shaped.width
-            };
-            let (x, y) = self.apply_alignment_offset(
-                anchor_x,
-                adjusted_y,
-                line_width,
-                height_for_positioning,
-                alignment,
-            );
-
-            // Start the pen at the line's left edge; the post-draw advance
-            // below moves current_x past each segment (centering uses the
-            // whole line's width so multi-segment lines align as a unit).
-            pen.current_x = x;
-            pen.needs_initial_position = false;
-            (x, y)
+        // For multi-line text, use the line height for vertical positioning
+        // to ensure proper spacing between lines
+        let height = if layout.num_lines > 1 {
+            layout.line_height
         } else {
-            // Continue from previous segment position
-            // Need to maintain the absolute Y position from the previous segment
-            // For now, calculate it based on alignment and line offset
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_alignment(alignment, event, context);
-
-            let adjusted_y = if num_lines > 1 {
-                match alignment {
-                    1..=3 => {
-                        // Bottom alignment: stack lines upward from bottom
-                        let line_offset = (num_lines - 1 - line_index) as f32
-                            * estimated_line_height
-                            * line_spacing_multiplier;
-                        anchor_y - line_offset
-                    }
-                    7..=9 => {
-                        // Top alignment: stack lines downward from top
-                        anchor_y + line_y_offset
-                    }
-                    _ => {
-                        // Middle alignment: center the block vertically
-                        let block_offset = -((num_lines as f32 - 1.0)
-                            * estimated_line_height
-                            * line_spacing_multiplier
-                            / 2.0);
-                        anchor_y + block_offset + line_y_offset
-                    }
-                }
-            } else {
-                anchor_y
-            };
-
-            // For multi-line text, use the line height for vertical positioning
-            let height_for_positioning = if num_lines > 1 {
-                estimated_line_height
-            } else {
-                shaped.height
-            };
-
-            let (_, y) = self.apply_alignment_offset(
-                anchor_x,
-                adjusted_y,
-                shaped.width,
-                height_for_positioning,
-                alignment,
-            );
-            (pen.current_x, y)
-        }
+            layout.height
+        };
+
+        let lines_after = (layout.num_lines - 1 - layout.line_index) as f32;
+        let lines_before = layout.line_index as f32;
+        let line_offset = match alignment {
+            // Bottom alignment: the last line is at the bottom, the others above it
+            1..=3 => -lines_after,
+            // Top alignment: stack lines downward from top
+            7..=9 => lines_before,
+            // Middle alignment: center the block vertically
+            _ => (lines_before - lines_after) / 2.0,
+        };
+
+        self.apply_alignment_offset(
+            anchor_x,
+            anchor_y + line_offset * layout.line_height,
+            layout.width,
+            height,
+            alignment,
+        )
     }
 }
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index d93a530..efcda2f 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -1,58 +1,74 @@
 //! Shared layout types for the software pipeline's text builder: style-derived
-//! defaults, per-call and per-line context, pen state, and resolved effect
+//! defaults, per-call and per-line context, shaped runs, and resolved effect
 //! colours. Consumed by the descendant `defaults`/`position`/`effects` modules
 //! and the orchestrator in the parent module.
 
+#[cfg(feature = "nostd")]
+use alloc::string::String;
+#[cfg(not(feature = "nostd"))]
+use std::string::String;
+
 use ass_core::parser::Event;
 
-use crate::renderer::RenderContext;
+use super::super::OwnedStyle;
+use crate::pipeline::tag_processor::ProcessedTags;
 
 /// Style-derived defaults (font, size, colours, formatting) resolved once per
 /// event. Borrows the run's resolved style for its zero-copy font name.
-pub(super) struct TextDefaults<'a> {
-    pub(super) font_name: &'a str,
-    pub(super) font_size_base: f32,
-    pub(super) bold: bool,
-    pub(super) italic: bool,
-    pub(super) underline: bool,
-    pub(super) strikeout: bool,
-    pub(super) primary_color: [u8; 4],
-    pub(super) secondary_color: [u8; 4],
-    pub(super) outline_color: [u8; 4],
-    pub(super) back_color: [u8; 4],
-    pub(super) outline: f32,
-    pub(super) shadow: f32,
-    pub(super) scale_x: f32,
-    pub(super) scale_y: f32,
-    pub(super) spacing: f32,
-    pub(super) alignment: u8,
+pub(in crate::pipeline::build) struct TextDefaults<'a> {
+    pub(in crate::pipeline::build) font_name: &'a str,
+    pub(in crate::pipeline::build) font_size_base: f32,
+    pub(in crate::pipeline::build) bold: bool,
+    pub(in crate::pipeline::build) italic: bool,
+    pub(in crate::pipeline::build) underline: bool,
+    pub(in crate::pipeline::build) strikeout: bool,
+    pub(in crate::pipeline::build) primary_color: [u8; 4],
+    pub(in crate::pipeline::build) secondary_color: [u8; 4],
+    pub(in crate::pipeline::build) outline_color: [u8; 4],
+    pub(in crate::pipeline::build) back_color: [u8; 4],
+    pub(in crate::pipeline::build) outline: f32,
+    pub(in crate::pipeline::build) shadow: f32,
+    /// The outline width in the units of `\bord`; `outline` is in pixels
+    pub(in crate::pipeline::build) outline_base: f32,
+    /// The shadow depth in the units of `\shad`; `shadow` is in pixels
+    pub(in crate::pipeline::build) shadow_base: f32,
+    pub(in crate::pipeline::build) scale_x: f32,
+    pub(in crate::pipeline::build) scale_y: f32,
+    pub(in crate::pipeline::build) spacing: f32,
+    pub(in crate::pipeline::build) angle: f32,
+    pub(in crate::pipeline::build) alignment: u8,
 }
 
 /// Per-call rendering context shared by the per-segment helpers (constant
 /// across every line and segment of the event).
-pub(super) struct RunCtx<'a, 'b> {
-    pub(super) event: &'a Event<'b>,
-    pub(super) context: &'a RenderContext,
-    pub(super) time_cs: u32,
-    pub(super) scale_x: f32,
-    pub(super) scale_y: f32,
+pub(in crate::pipeline::build) struct RunCtx<'a, 'b> {
+    pub(in crate::pipeline::build) event: &'a Event<'b>,
+    pub(in crate::pipeline::build) time_cs: u32,
+    pub(in crate::pipeline::build) scale_x: f32,
+    pub(in crate::pipeline::build) scale_y: f32,
+}
+
+/// A shaped stretch of text with one look.
+pub(super) struct TextRun<'a> {
+    pub(super) text: String,
+    pub(super) tags: ProcessedTags,
+    pub(super) style: Option<&'a OwnedStyle>,
+    pub(super) defaults: TextDefaults<'a>,
+    pub(super) font_size: f32,
+    pub(super) spacing: f32,
+    pub(super) height: f32,
+    pub(super) baseline: f32,
+    pub(super) width: f32,
 }
 
-/// Per-line layout constants consumed when positioning each segment.
+/// What positions a line of an event.
 pub(super) struct LineLayout {
-    pub(super) is_multi_segment: bool,
-    pub(super) line_total_width: f32,
+    pub(super) width: f32,
+    pub(super) height: f32,
     pub(super) num_lines: usize,
     pub(super) line_index: usize,
-    pub(super) estimated_line_height: f32,
-    pub(super) line_spacing_multiplier: f32,
-    pub(super) line_y_offset: f32,
-}
-
-/// Pen state carried across the segments of a single line.
-pub(super) struct Pen {
-    pub(super) current_x: f32,
-    pub(super) needs_initial_position: bool,
+    /// Distance between the lines
+    pub(super) line_height: f32,
 }
 
 /// Resolved outline and shadow colours handed to the effects builder.
diff --git a/crates/ass-renderer/src/pipeline/shaping/mod.rs b/crates/ass-renderer/src/pipeline/shaping/mod.rs
index 51c612d..08807fe 100644
--- a/crates/ass-renderer/src/pipeline/shaping/mod.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/mod.rs
@@ -75,4 +75,15 @@ impl ShapedText {
         }
         Some(total)
     }
+
+    /// Width the text takes up when drawn with `spacing` pixels after each glyph and
+    /// the scales of `\fscx` and `\fscy`, the latter of which is in the font size.
+    pub fn drawn_width(&self, spacing: f32, scale_x: f32, scale_y: f32) -> f32 {
+        let scale = if scale_y == 0.0 {
+            scale_x / 100.0
+        } else {
+            scale_x / scale_y
+        };
+        (self.width + spacing * self.glyphs.len() as f32) * scale
+    }
 }
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 4199b7c..80630a3 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -15,7 +15,7 @@ use alloc::string::ToString;
 use std::string::ToString;
 
 /// The largest `\blur` there is, as in libass.
-const MAX_BLUR: f32 = 100.0;
+pub(in crate::pipeline) const MAX_BLUR: f32 = 100.0;
 
 /// Process tags within a tag block and update current tags
 ///
@@ -135,14 +135,14 @@ pub(super) fn process_tag_block(
 
             // Alignment tags
             "a" | "an" => {
-                let alignment = args.parse::<u8>().ok().and_then(|value| match value {
-                    1..=9 if name == "an" => Some(value),
+                let alignment = match (name, args.parse::<u8>().unwrap_or(0)) {
+                    ("an", value @ 1..=9) => Some(value),
                     // \a counts the columns like \an, with 4 for top and 8 for middle.
-                    1..=3 if name == "a" => Some(value),
-                    5..=7 if name == "a" => Some(value + 2),
-                    9..=11 if name == "a" => Some(value - 5),
+                    ("a", value @ 1..=3) => Some(value),
+                    ("a", value @ 5..=7) => Some(value + 2),
+                    ("a", value @ 9..=11) => Some(value - 5),
                     _ => None,
-                });
+                };
                 if current.formatting.alignment.is_none() {
                     current.formatting.alignment = alignment;
                 }
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs b/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
index 83dd3d3..854e364 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
@@ -4,6 +4,7 @@ mod apply;
 mod split;
 
 use apply::process_tag_block;
+pub(in crate::pipeline) use apply::MAX_BLUR;
 
 use crate::utils::RenderError;
 use ass_core::analysis::events::TextAnalysis;
diff --git a/crates/ass-renderer/src/pipeline/transform/parse.rs b/crates/ass-renderer/src/pipeline/transform/parse.rs
index 8def8d6..cdc07b6 100644
--- a/crates/ass-renderer/src/pipeline/transform/parse.rs
+++ b/crates/ass-renderer/src/pipeline/transform/parse.rs
@@ -6,6 +6,7 @@ use alloc::{string::String, vec::Vec};
 use std::{string::String, vec::Vec};
 
 use super::AnimatableTag;
+use crate::pipeline::text_segmenter::MAX_BLUR;
 
 /// Apply acceleration curve to linear progress
 ///
@@ -99,31 +100,44 @@ pub(super) fn parse_animatable_tags(tag_string: &str) -> Vec<AnimatableTag> {
 
 fn create_animatable_tag(name: &str, args: &str) -> Option<AnimatableTag> {
     match name {
-        "fs" => args.parse::<f32>().ok().map(AnimatableTag::FontSize),
-        "fscx" => args.parse::<f32>().ok().map(AnimatableTag::FontScaleX),
-        "fscy" => args.parse::<f32>().ok().map(AnimatableTag::FontScaleY),
-        "fsp" => args.parse::<f32>().ok().map(AnimatableTag::FontSpacing),
-        "frz" | "fr" => args.parse::<f32>().ok().map(AnimatableTag::FontRotationZ),
-        "frx" => args.parse::<f32>().ok().map(AnimatableTag::FontRotationX),
-        "fry" => args.parse::<f32>().ok().map(AnimatableTag::FontRotationY),
+        "fs" => parse_number(args).map(AnimatableTag::FontSize),
+        "fscx" => parse_number(args).map(AnimatableTag::FontScaleX),
+        "fscy" => parse_number(args).map(AnimatableTag::FontScaleY),
+        "fsp" => parse_number(args).map(AnimatableTag::FontSpacing),
+        "frz" | "fr" => parse_number(args).map(AnimatableTag::FontRotationZ),
+        "frx" => parse_number(args).map(AnimatableTag::FontRotationX),
+        "fry" => parse_number(args).map(AnimatableTag::FontRotationY),
         "c" | "1c" => parse_color_arg(args).map(AnimatableTag::PrimaryColor),
         "2c" => parse_color_arg(args).map(AnimatableTag::SecondaryColor),
         "3c" => parse_color_arg(args).map(AnimatableTag::OutlineColor),
         "4c" => parse_color_arg(args).map(AnimatableTag::ShadowColor),
         "alpha" => parse_alpha_arg(args).map(AnimatableTag::Alpha),
-        "bord" => args.parse::<f32>().ok().map(AnimatableTag::BorderWidth),
-        "shad" => args.parse::<f32>().ok().map(AnimatableTag::ShadowDepth),
-        "blur" | "be" => args.parse::<f32>().ok().map(AnimatableTag::Blur),
+        "bord" => parse_number(args).map(AnimatableTag::BorderWidth),
+        "shad" => parse_number(args).map(AnimatableTag::ShadowDepth),
+        "blur" | "be" => {
+            parse_number(args).map(|radius| AnimatableTag::Blur(radius.clamp(0.0, MAX_BLUR)))
+        }
         _ => None,
     }
 }
 
+fn parse_number(args: &str) -> Option<f32> {
+    args.trim()
+        .parse()
+        .ok()
+        .filter(|value: &f32| value.is_finite())
+}
+
 fn parse_color_arg(args: &str) -> Option<[u8; 4]> {
     ass_core::utils::parse_bgr_color(args).ok()
 }
 
 fn parse_alpha_arg(args: &str) -> Option<u8> {
-    let hex = args.trim_start_matches("&H").trim_start_matches("&h");
+    let hex = args
+        .trim()
+        .trim_start_matches("&H")
+        .trim_start_matches("&h")
+        .trim_end_matches('&');
     // ASS uses inverted alpha: 0 = opaque, 255 = transparent
     // We need to invert it to match standard RGBA: 255 = opaque, 0 = transparent
     u8::from_str_radix(hex, 16)
-- 
2.43.0


From 7e35bf765517b0f6c89a2aa38da720a532726644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:46 +0000
Subject: [PATCH 52/94] fix: \r takes the style it names, and a line's height
 follows its animated sizes

---
 .../src/pipeline/build/text/mod.rs            | 20 +++++++++++--------
 .../src/pipeline/text_segmenter/split.rs      |  3 +++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index d76cedd..275b3ae 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -131,6 +131,18 @@ impl super::SoftwarePipeline {
             logical_lines = wrapped;
         }
 
+        // Apply transform animations if present: the layout is that of the moment
+        for segment in logical_lines.iter_mut().flatten() {
+            let defaults = self.resolve_text_defaults(style_of(&segment.tags), scale_y);
+            self.apply_transform_animations(
+                &mut segment.tags,
+                event.start_time_cs().unwrap_or(0),
+                event.end_time_cs().unwrap_or(u32::MAX),
+                time_cs,
+                &defaults,
+            );
+        }
+
         // Calculate total height for multi-line text
         let num_lines = logical_lines.len();
         // For line height in libass:
@@ -174,15 +186,7 @@ impl super::SoftwarePipeline {
                 let style = style_of(&segment.tags);
                 let defaults = self.resolve_text_defaults(style, scale_y);
 
-                // Apply transform animations if present
                 let mut tags = segment.tags;
-                self.apply_transform_animations(
-                    &mut tags,
-                    event.start_time_cs().unwrap_or(0),
-                    event.end_time_cs().unwrap_or(u32::MAX),
-                    time_cs,
-                    &defaults,
-                );
 
                 // Process drawing commands
                 if tags.drawing_mode.is_some_and(|level| level > 0) {
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index 0fa1d8b..e9c4401 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -56,6 +56,9 @@ pub(super) fn extract_tag_name_and_args(part: &str) -> (&str, &str) {
     if part.starts_with("fn") && part.len() > 2 {
         // Special case for \fn tag - everything after "fn" is the font name
         ("fn", &part[2..])
+    } else if part.starts_with('r') {
+        // Likewise for \r: everything after it is the style name
+        part.split_at(1)
     } else if part.starts_with(|c: char| c.is_ascii_digit()) {
         // Colour/alpha tags (\1c \2c \3c \4c \1a \2a \3a \4a) are a digit plus
         // exactly one letter, with the value following immediately. Take just
-- 
2.43.0


From 82ba10097d0bbce482fd65e767be315817ecdc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 53/94] fix: wrapped lines fit beside an oversized word,
 spacing and small scales are exact

---
 crates/ass-renderer/src/backends/software/text/prepare.rs | 2 +-
 crates/ass-renderer/src/pipeline/build/text/mod.rs        | 6 +++++-
 crates/ass-renderer/src/pipeline/build/wrap.rs            | 7 +++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index d5efcf1..ce72249 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -129,7 +129,7 @@ impl super::super::SoftwareBackend {
                     // 100 so this reduces to the plain x-scale; for uniform scaling the
                     // ratio is 1 and this is a no-op.)
                     let x_scale = if *y != 0.0 { *x / *y } else { *x / 100.0 };
-                    if (x_scale - 1.0).abs() > 0.01 {
+                    if x_scale != 1.0 {
                         base_transform = base_transform.pre_scale(x_scale, 1.0);
                     }
                 }
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 275b3ae..a3ced37 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -224,7 +224,11 @@ impl super::SoftwarePipeline {
                 // spacing is in script units; scale it to screen like positions so
                 // the rendered run width (and thus wrapping) matches libass, which
                 // applies fsp * scale. Unscaled, spaced text drew ~2% too wide.
-                let spacing = tags.font.spacing.unwrap_or(defaults.spacing) * scale_x;
+                // Like the glyphs it is stretched by fscx/fscy, of which only the
+                // fscx is meant.
+                let spacing = tags.font.spacing.unwrap_or(defaults.spacing)
+                    * scale_x
+                    * (font_scale_y / 100.0);
                 let width = shaped.drawn_width(spacing, font_scale_x, font_scale_y);
 
                 runs.push(TextRun {
diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index 35f076d..9c6ffe3 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -73,7 +73,9 @@ impl super::SoftwarePipeline {
         // screen `size`, so scale spacing to screen too (libass uses fsp * scale).
         // Adding it unscaled over-measures the line and forces an early wrap (an
         // extra line vs libass on borderline-width subtitles).
-        let spacing = lead.tags.font.spacing.unwrap_or(default_spacing) * scale_y;
+        let spacing = lead.tags.font.spacing.unwrap_or(default_spacing)
+            * scale_y
+            * (lead.tags.font.scale_y.unwrap_or(default_scale_y) / 100.0);
         // The shaped advance already carries \fscy (folded into `size`), and the
         // render's net horizontal scale is \fscx, so the wrap multiplier is the
         // x/y ratio (reduces to \fscx/100 in the common \fscy=100 case).
@@ -148,7 +150,8 @@ impl super::SoftwarePipeline {
             let max_word = (0..words.len())
                 .map(|i| line_ink(word_adv[i], word_glyphs[i], i, i))
                 .fold(0.0_f32, f32::max);
-            let (mut lo, mut hi) = (max_word, max_width);
+            // A word too wide for the line does not make room for others.
+            let (mut lo, mut hi) = (max_word.min(max_width), max_width);
             for _ in 0..24 {
                 let mid = (lo + hi) / 2.0;
                 if fill(mid).len() <= target {
-- 
2.43.0


From fa6d69ef3af6938d6282c4ff059e5a1e83c60a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 54/94] fix: keep a drawing's own origin when it is aligned

A drawing stands with its origin at the position, moved by its width and height as
aligned. Its bounding box was placed there instead, so that shapes lost where they
lie about their origin.
---
 .../src/pipeline/build/drawing.rs             | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index e289ada..deaf446 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -70,25 +70,21 @@ impl super::SoftwarePipeline {
             // Calculate alignment offset based on path bounds
             // Alignment uses numpad layout: 1-3 bottom, 4-6 middle, 7-9 top
             let (align_x_offset, align_y_offset) = {
-                // For alignment, we need to position the bounding box
-                // The \pos coordinate should be where the alignment point ends up
+                // The drawing's own origin stands at the \pos coordinate, moved by the
+                // width and the height as aligned: where the shape is about its origin
+                // is kept.
 
                 // Horizontal alignment: 1,4,7 = left, 2,5,8 = center, 3,6,9 = right
                 let x_offset = match alignment % 3 {
-                    1 => -bounds.left(), // Left align: move left edge to pos
-                    2 => -(bounds.left() + bounds.right()) / 2.0, // Center align: move center to pos
-                    0 => -bounds.right(), // Right align: move right edge to pos
-                    _ => -(bounds.left() + bounds.right()) / 2.0, // Default center
+                    1 => 0.0,             // Left align: from pos on
+                    0 => -bounds.width(), // Right align: up to pos
+                    _ => -bounds.width() / 2.0, // Center align
                 };
-
-                // Vertical alignment: 1,2,3 = bottom, 4,5,6 = middle, 7,8,9 = top
                 let y_offset = match alignment {
-                    1..=3 => -bounds.bottom(), // Bottom align: move bottom edge to pos
-                    4..=6 => -(bounds.top() + bounds.bottom()) / 2.0, // Middle align: move center to pos
-                    7..=9 => -bounds.top(), // Top align: move top edge to pos
-                    _ => -(bounds.top() + bounds.bottom()) / 2.0, // Default middle
+                    1..=3 => -bounds.height(), // Bottom align: up to pos
+                    7..=9 => 0.0,              // Top align: from pos on
+                    _ => -bounds.height() / 2.0, // Middle align
                 };
-
                 (x_offset, y_offset)
             };
 
-- 
2.43.0


From d9e64c3b7256c49e58c29ea0c21e7e35d2397165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 55/94] fix: \k and \ko syllables change at once, and a sweep
 parts its two colours

\k and \ko syllables were interpolated over their duration like \kf ones; they change
when they begin, and a \ko syllable has no outline before. A swept syllable painted the
secondary colour under the primary one, which showed through where either is
translucent.
---
 .../src/backends/software/cache/blur_tile.rs  | 47 +++++++--------
 .../src/backends/software/cache/mod.rs        |  2 +-
 .../src/backends/software/text/fills.rs       | 60 ++++++-------------
 .../src/pipeline/build/text/mod.rs            | 14 ++++-
 4 files changed, 55 insertions(+), 68 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 2ce62bc..f1bb9a4 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -59,8 +59,8 @@ fn emit_cached(
         match karaoke_sweep {
             // Swept `\K`/`\kf`: not-yet-sung syllables are wholly secondary,
             // fully-sung wholly primary (both reuse the shared tile, no copy);
-            // only the one syllable mid-sweep needs a secondary base plus a
-            // primary fill cropped to the advancing boundary.
+            // only the one syllable mid-sweep needs a primary fill cropped to the
+            // advancing boundary and a secondary one cropped to what lies beyond.
             Some((progress, secondary)) if progress <= 0.0 => {
                 out.push(bitmap(tile, x, y, secondary));
             }
@@ -68,19 +68,24 @@ fn emit_cached(
                 out.push(bitmap(tile, x, y, fill_color));
             }
             Some((progress, secondary)) => {
-                out.push(bitmap(tile, x, y, secondary));
                 let cols = (1.0 + progress * (tile.width as f32 - 2.0))
                     .round()
                     .clamp(0.0, tile.width as f32) as u32;
-                if cols > 0 {
-                    out.push(RenderBitmap::Coverage {
-                        width: cols,
-                        height: tile.height,
-                        coverage: crop_coverage_columns(tile, cols),
-                        x,
-                        y,
-                        color: fill_color,
-                    });
+                let parts = [
+                    (0..cols, fill_color),
+                    (cols..tile.width, secondary),
+                ];
+                for (columns, color) in parts {
+                    if !columns.is_empty() {
+                        out.push(RenderBitmap::Coverage {
+                            width: columns.end - columns.start,
+                            height: tile.height,
+                            coverage: crop_coverage_columns(tile, &columns),
+                            x: x.saturating_add_unsigned(columns.start),
+                            y,
+                            color,
+                        });
+                    }
                 }
             }
             None => out.push(bitmap(tile, x, y, fill_color)),
@@ -89,22 +94,16 @@ fn emit_cached(
     out
 }
 
-/// Copy the leftmost `cols` columns of a coverage tile into a new buffer — the
-/// "sung" portion of a swept karaoke syllable.
+/// Copy some columns of a coverage tile into a new buffer — the "sung" portion of a
+/// swept karaoke syllable, or the rest of it.
 #[cfg(not(feature = "nostd"))]
 fn crop_coverage_columns(
     tile: &crate::backends::coverage::CoverageTile,
-    cols: u32,
+    columns: &core::ops::Range<u32>,
 ) -> std::sync::Arc<Vec<u8>> {
-    let cols = cols.min(tile.width) as usize;
-    let width = tile.width as usize;
-    let mut data = vec![0u8; cols * tile.height as usize];
-    for y in 0..tile.height as usize {
-        let src = y * width;
-        let dst = y * cols;
-        data[dst..dst + cols].copy_from_slice(&tile.data[src..src + cols]);
-    }
-    std::sync::Arc::new(data)
+    let columns = columns.start as usize..columns.end.min(tile.width) as usize;
+    let rows = tile.data.chunks_exact(tile.width as usize);
+    std::sync::Arc::new(rows.flat_map(|row| &row[columns.clone()]).copied().collect())
 }
 
 /// Composite cached coverage tiles (shadow, then outline, then fill) onto the
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index c189bf0..c30ea57 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -237,7 +237,7 @@ fn coverage_key(
                 style,
                 secondary,
             } => {
-                if *style == 0 {
+                if matches!(*style, 0 | 2) {
                     fill_color = if *progress > 0.0 {
                         data.color
                     } else {
diff --git a/crates/ass-renderer/src/backends/software/text/fills.rs b/crates/ass-renderer/src/backends/software/text/fills.rs
index 0af3ed0..75e320e 100644
--- a/crates/ass-renderer/src/backends/software/text/fills.rs
+++ b/crates/ass-renderer/src/backends/software/text/fills.rs
@@ -11,7 +11,7 @@ use super::TextRun;
 /// until it is sung and the primary from then on; mid-sweep a blend of the two.
 pub(super) fn karaoke_color(primary: [u8; 4], karaoke: (f32, u8, [u8; 4])) -> [u8; 4] {
     let (progress, style, secondary) = karaoke;
-    if style == 0 {
+    if matches!(style, 0 | 2) {
         if progress > 0.0 {
             primary
         } else {
@@ -61,7 +61,7 @@ impl super::super::SoftwareBackend {
 
         // For \kf/\K mid-syllable, compute the left-to-right sweep boundary
         // from the glyph bounds.
-        let sweeping = karaoke_style != 0 && progress > 0.0 && progress < 1.0;
+        let sweeping = matches!(karaoke_style, 1 | 3) && progress > 0.0 && progress < 1.0;
         let sweep_bounds = if sweeping {
             let mut b: Option<tiny_skia::Rect> = None;
             for path in paths {
@@ -85,45 +85,23 @@ impl super::super::SoftwareBackend {
         };
 
         if let Some(b) = sweep_bounds {
-            // Secondary base across the whole syllable.
-            paint.set_color_rgba8(secondary[0], secondary[1], secondary[2], secondary[3]);
-            for path in paths {
-                if let Some(t) = path.clone().transform(text_transform) {
-                    self.pixmap.fill_path(
-                        &t,
-                        &paint,
-                        tiny_skia::FillRule::Winding,
-                        Transform::identity(),
-                        None,
-                    );
-                }
-            }
-            // Primary on the already-sung left portion, clipped to the sweep rect.
-            let sweep_x = b.left() + progress * (b.right() - b.left());
-            if let (Some(rect), Some(mut mask)) = (
-                tiny_skia::Rect::from_ltrb(b.left(), b.top(), sweep_x, b.bottom()),
-                tiny_skia::Mask::new(self.pixmap.width(), self.pixmap.height()),
-            ) {
-                let mut pb = tiny_skia::PathBuilder::new();
-                pb.push_rect(rect);
-                if let Some(rect_path) = pb.finish() {
-                    mask.fill_path(
-                        &rect_path,
-                        tiny_skia::FillRule::Winding,
-                        true,
-                        Transform::identity(),
-                    );
-                    paint.set_color_rgba8(primary[0], primary[1], primary[2], primary[3]);
-                    for path in paths {
-                        if let Some(t) = path.clone().transform(text_transform) {
-                            self.pixmap.fill_path(
-                                &t,
-                                &paint,
-                                tiny_skia::FillRule::Winding,
-                                Transform::identity(),
-                                Some(&mask),
-                            );
-                        }
+            // Primary on the already-sung left portion, secondary on the rest: each on
+            // its own side of one column of pixels.
+            let (_, _, width, height) = self.visible();
+            let sweep_x = (b.left() + progress * (b.right() - b.left())).round();
+            let sweep_x = sweep_x.clamp(0.0, width);
+            for (from, to, c) in [(0.0, sweep_x, primary), (sweep_x, width, secondary)] {
+                let mask = self.clip_mask(Some((from, 0.0, to, height, false)));
+                paint.set_color_rgba8(c[0], c[1], c[2], c[3]);
+                for path in paths {
+                    if let Some(t) = path.clone().transform(text_transform) {
+                        self.pixmap.fill_path(
+                            &t,
+                            &paint,
+                            tiny_skia::FillRule::Winding,
+                            Transform::identity(),
+                            mask.as_ref(),
+                        );
                     }
                 }
             }
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index a3ced37..34dcc49 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -308,15 +308,25 @@ impl super::SoftwarePipeline {
                         .saturating_add(karaoke.start_time.unwrap_or(0));
                     let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
-                    let progress = if time_cs < syllable_start {
+                    let at_once =
+                        matches!(karaoke.style, KaraokeStyle::Basic | KaraokeStyle::Outline);
+                    let begun = time_cs > syllable_start || !at_once && time_cs == syllable_start;
+                    let progress = if !begun {
                         0.0 // Not yet started
-                    } else if time_cs >= syllable_end {
+                    } else if at_once || time_cs >= syllable_end {
                         1.0 // Fully highlighted
                     } else {
                         // In progress
                         (time_cs - syllable_start) as f32 / karaoke.duration as f32
                     };
 
+                    // \ko: the outline appears as the syllable is sung
+                    if matches!(karaoke.style, KaraokeStyle::Outline) && progress <= 0.0 {
+                        layer
+                            .effects
+                            .retain(|e| !matches!(e, TextEffect::Outline { .. }));
+                    }
+
                     // Unsung syllables use the secondary colour.
                     let karaoke_secondary = resolve_secondary_color(tags, defaults, &run_ctx);
 
-- 
2.43.0


From e96c0c5ea7f1a9c4c983266d17a65592cf025b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 56/94] fix: borders wider than the shape they surround have no
 holes

The stroke of a contour is two rims; where the border is wider than the shape, or
neighbouring strokes overlap, the rims cancelled out and left holes. The border is put
together from pieces that only add up. A border along one axis stays on that axis.
---
 crates/ass-renderer/src/backends/geometry.rs | 189 +++++++++++++++++--
 1 file changed, 174 insertions(+), 15 deletions(-)

diff --git a/crates/ass-renderer/src/backends/geometry.rs b/crates/ass-renderer/src/backends/geometry.rs
index 1b70e99..9b9eb80 100644
--- a/crates/ass-renderer/src/backends/geometry.rs
+++ b/crates/ass-renderer/src/backends/geometry.rs
@@ -24,28 +24,187 @@ pub(crate) fn merge_transformed(
 }
 
 /// Stroke a glyph path to its outline, growing it outward by `wx` horizontally
-/// and `wy` vertically (`\xbord`/`\ybord`). tiny-skia strokes uniformly, so an
-/// asymmetric border is produced by stroking in a vertically-scaled space and
-/// scaling back. The symmetric case (`wx == wy`, almost all content) is a plain
-/// uniform stroke. The stroke width is doubled to match libass's outward grow.
+/// and `wy` vertically (`\xbord`/`\ybord`). An asymmetric border is produced by
+/// stroking in a vertically-scaled space and scaling back. The symmetric case
+/// (`wx == wy`, almost all content) is a plain uniform stroke. The band reaches the
+/// width on both sides of the edge, to match libass's outward grow.
 #[cfg(not(feature = "nostd"))]
 pub(crate) fn stroke_outline(path: &tiny_skia::Path, wx: f32, wy: f32) -> Option<tiny_skia::Path> {
-    let mk = |w: f32| tiny_skia::Stroke {
-        width: w * 2.0,
-        line_cap: tiny_skia::LineCap::Square,
-        line_join: tiny_skia::LineJoin::Miter,
-        ..Default::default()
-    };
-    let mut stroker = tiny_skia::PathStroker::new();
-    if (wx - wy).abs() < 0.05 || wx <= 0.0 || wy <= 0.0 {
-        return stroker.stroke(path, &mk(wx.max(wy)), 1.0);
+    // A border along one axis only is a sliver along the other.
+    let least = wx.max(wy) / 64.0;
+    let (wx, wy) = (wx.max(least), wy.max(least));
+    if (wx - wy).abs() < 0.05 {
+        return widen(path, wx.max(wy));
     }
     // Stroke uniformly with radius wx in a space scaled by (1, wx/wy), then undo
     // the scale: the vertical extent becomes wy while the horizontal stays wx.
     let sy = wx / wy;
     let scaled = path.clone().transform(Transform::from_scale(1.0, sy))?;
-    let stroked = stroker.stroke(&scaled, &mk(wx), 1.0)?;
-    stroked.transform(Transform::from_scale(1.0, 1.0 / sy))
+    widen(&scaled, wx)?.transform(Transform::from_scale(1.0, 1.0 / sy))
+}
+
+/// The band within `width` of every contour of a path, each contour closed.
+///
+/// The band is put together from a piece along every edge and one at every corner
+/// (mitred, as far as four times the width). All of them run the way the path's own
+/// area does, so wherever pieces meet - a border wider than the shape it surrounds, or
+/// neighbouring contours - they add up and never cancel out.
+#[cfg(not(feature = "nostd"))]
+fn widen(path: &tiny_skia::Path, width: f32) -> Option<tiny_skia::Path> {
+    use tiny_skia::Point;
+    const MITER_LIMIT: f32 = 4.0;
+
+    if !(width > 0.0) {
+        return None;
+    }
+    let contours = flatten(path, width);
+    let forward = contours.iter().map(|c| signed_area(c)).sum::<f32>() >= 0.0;
+    let mut builder = tiny_skia::PathBuilder::new();
+    let mut piece = |points: &mut [Point]| {
+        if (signed_area(points) >= 0.0) != forward {
+            points.reverse();
+        }
+        builder.move_to(points[0].x, points[0].y);
+        for p in &points[1..] {
+            builder.line_to(p.x, p.y);
+        }
+        builder.close();
+    };
+    for contour in &contours {
+        let count = contour.len();
+        // The unit directions of the edges
+        let dirs: Vec<Point> = (0..count)
+            .filter_map(|i| {
+                let mut d = contour[(i + 1) % count] - contour[i];
+                d.normalize().then_some(d)
+            })
+            .collect();
+        if dirs.len() != count {
+            continue; // no extent, or not finite
+        }
+        for (i, &from) in contour.iter().enumerate() {
+            let to = contour[(i + 1) % count];
+            let (d0, d) = (dirs[(i + count - 1) % count], dirs[i]);
+            let n = Point::from_xy(-d.y * width, d.x * width);
+            piece(&mut [from + n, to + n, to - n, from - n]);
+
+            // The corner where the edge starts, on its outer side
+            let cross = d0.x * d.y - d0.y * d.x;
+            let dot = d0.x * d.x + d0.y * d.y;
+            let n0 = Point::from_xy(-d0.y * width, d0.x * width);
+            if cross.abs() < 1e-6 {
+                if dot < 0.0 {
+                    // A reversal: a square end
+                    let end = Point::from_xy(d0.x * width, d0.y * width);
+                    piece(&mut [from + n0, from + n0 + end, from - n0 + end, from - n0]);
+                }
+                continue;
+            }
+            let (a, b) = if cross > 0.0 {
+                (from - n0, from - n)
+            } else {
+                (from + n0, from + n)
+            };
+            // With the turn's half angle h the mitre is 1/cos(h) as long as the width
+            let cos_half = ((1.0 + dot) / 2.0).max(0.0).sqrt();
+            if cos_half * MITER_LIMIT >= 1.0 {
+                let mid = Point::from_xy((a.x + b.x) / 2.0 - from.x, (a.y + b.y) / 2.0 - from.y);
+                let tip = 1.0 / (cos_half * cos_half);
+                let tip = Point::from_xy(from.x + mid.x * tip, from.y + mid.y * tip);
+                piece(&mut [from, a, tip, b]);
+            } else {
+                piece(&mut [from, a, b]);
+            }
+        }
+    }
+    builder.finish()
+}
+
+/// The contours of a path as polygons without repeated points, fine enough for a band
+/// of the given half-width along them.
+#[cfg(not(feature = "nostd"))]
+fn flatten(path: &tiny_skia::Path, width: f32) -> Vec<Vec<tiny_skia::Point>> {
+    use tiny_skia::{PathSegment, Point};
+
+    // How far apart the directions of two edges of a curve may be for the band's rim to
+    // stay within a tenth of a pixel of a round one
+    let turn = 2.0 * (width / (width + 0.1)).acos().max(0.02);
+    let steps = |legs: &[Point]| -> usize {
+        let mut bend = 0.0_f32;
+        let mut angle = 0.0_f32;
+        for pair in legs.windows(2) {
+            let (a, b) = (pair[0], pair[1]);
+            bend += (b - a).length();
+            angle += (a.x * b.y - a.y * b.x).abs().atan2(a.x * b.x + a.y * b.y);
+        }
+        let steps = bend.sqrt().max(angle / turn).ceil();
+        (steps as usize).clamp(1, 64)
+    };
+    let mut contours: Vec<Vec<Point>> = Vec::new();
+    let mut last = Point::zero();
+    for segment in path.segments() {
+        if let PathSegment::MoveTo(p) = segment {
+            contours.push(vec![p]);
+            last = p;
+            continue;
+        }
+        let Some(contour) = contours.last_mut() else {
+            continue;
+        };
+        match segment {
+            PathSegment::LineTo(p) => contour.push(p),
+            PathSegment::QuadTo(c, p) => {
+                let n = steps(&[c - last, p - c]);
+                for i in 1..=n {
+                    let t = i as f32 / n as f32;
+                    let (k0, k1, k2) = ((1.0 - t) * (1.0 - t), 2.0 * t * (1.0 - t), t * t);
+                    contour.push(Point::from_xy(
+                        k0 * last.x + k1 * c.x + k2 * p.x,
+                        k0 * last.y + k1 * c.y + k2 * p.y,
+                    ));
+                }
+            }
+            PathSegment::CubicTo(c1, c2, p) => {
+                let n = steps(&[c1 - last, c2 - c1, p - c2]);
+                for i in 1..=n {
+                    let t = i as f32 / n as f32;
+                    let m = 1.0 - t;
+                    let (k0, k1, k2, k3) = (m * m * m, 3.0 * m * m * t, 3.0 * m * t * t, t * t * t);
+                    contour.push(Point::from_xy(
+                        k0 * last.x + k1 * c1.x + k2 * c2.x + k3 * p.x,
+                        k0 * last.y + k1 * c1.y + k2 * c2.y + k3 * p.y,
+                    ));
+                }
+            }
+            PathSegment::MoveTo(_) | PathSegment::Close => {}
+        }
+        last = match segment {
+            PathSegment::Close => contour[0],
+            _ => contour[contour.len() - 1],
+        };
+    }
+    for contour in &mut contours {
+        contour.dedup_by(|b, a| (*b - *a).length() < 1e-4);
+        while contour.len() > 1 && (contour[contour.len() - 1] - contour[0]).length() < 1e-4 {
+            contour.pop();
+        }
+    }
+    contours
+}
+
+/// Twice the signed area of a polygon
+#[cfg(not(feature = "nostd"))]
+fn signed_area(points: &[tiny_skia::Point]) -> f32 {
+    let Some(&origin) = points.first() else {
+        return 0.0;
+    };
+    points
+        .windows(2)
+        .map(|pair| {
+            let (a, b) = (pair[0] - origin, pair[1] - origin);
+            a.x * b.y - b.x * a.y
+        })
+        .sum()
 }
 
 /// Project a screen-space path through a 3D rotation (`\frx`/`\fry`) and a pinhole
-- 
2.43.0


From 1356795736cd7d894c0ffbb1d9ab60d1ed111aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 57/94] fix: a drawing's border lies around it

The border of a drawing was a line over the edge of its fill, half as wide as named and
covering the fill. It reaches its width beyond the edge, under the fill.
---
 .../src/backends/software/vector.rs           | 61 +++++++------------
 1 file changed, 21 insertions(+), 40 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 1e0e772..b1fbbd9 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -7,6 +7,7 @@
 use tiny_skia::{Pixmap, Transform};
 
 use crate::backends::blur::{blurred_fills, BLUR_TO_SIGMA};
+use crate::backends::geometry::stroke_outline;
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
@@ -61,7 +62,7 @@ impl super::SoftwareBackend {
         // drawing — the dominant cost on sparkle-heavy frames (dozens-to-hundreds
         // of `\p` drawings, each previously a full-frame scan + clear).
         let b = path.bounds();
-        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width * 2.0) + data.blur * 3.0;
+        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width * 4.0) + data.blur * 3.0;
         note_dirty_bbox((
             (b.left() - margin).floor() as i32,
             (b.top() - margin).floor() as i32,
@@ -71,37 +72,27 @@ impl super::SoftwareBackend {
 
         let clip_mask = self.clip_mask(data.clip);
 
-        let mut paint = tiny_skia::Paint::default();
-        // Ensure we're setting color with proper alpha handling
-        // tiny-skia expects premultiplied alpha internally
-        paint.set_color_rgba8(data.color[0], data.color[1], data.color[2], data.color[3]);
-        paint.anti_alias = true;
-        paint.blend_mode = tiny_skia::BlendMode::SourceOver;
+        // The border lies outside the shape: it reaches its width beyond the edge and the
+        // fill covers the inner half.
+        let border = data.stroke.as_ref().and_then(|stroke| {
+            stroke_outline(path, stroke.width, stroke.width).map(|p| (p, stroke.color))
+        });
+        let mut fills: Vec<(tiny_skia::Path, [u8; 4])> = border.into_iter().collect();
+        fills.push((path.clone(), data.color));
 
-        // Sharp drawing (no `\blur`): fill, then stroke, straight onto the frame.
+        // Sharp drawing (no `\blur`): border, then fill, straight onto the frame.
         if data.blur <= 0.0 {
-            self.pixmap.fill_path(
-                path,
-                &paint,
-                tiny_skia::FillRule::Winding,
-                Transform::identity(),
-                clip_mask.as_ref(),
-            );
-            if let Some(stroke) = &data.stroke {
-                paint.set_color_rgba8(
-                    stroke.color[0],
-                    stroke.color[1],
-                    stroke.color[2],
-                    stroke.color[3],
-                );
-                let sk_stroke = tiny_skia::Stroke {
-                    width: stroke.width,
-                    ..Default::default()
-                };
-                self.pixmap.stroke_path(
-                    path,
+            for (shape, color) in &fills {
+                let mut paint = tiny_skia::Paint::default();
+                // Ensure we're setting color with proper alpha handling
+                // tiny-skia expects premultiplied alpha internally
+                paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
+                paint.anti_alias = true;
+                paint.blend_mode = tiny_skia::BlendMode::SourceOver;
+                self.pixmap.fill_path(
+                    shape,
                     &paint,
-                    &sk_stroke,
+                    tiny_skia::FillRule::Winding,
                     Transform::identity(),
                     clip_mask.as_ref(),
                 );
@@ -109,21 +100,11 @@ impl super::SoftwareBackend {
             return Ok(());
         }
 
-        // Blurred drawing: render fill+stroke into a padded temp pixmap, blur the
+        // Blurred drawing: render border+fill into a padded temp pixmap, blur the
         // whole silhouette, then composite (and clip). libass blurs the drawing
         // bitmap and applies `\clip` afterwards, so clipped gradient strips tile
         // seamlessly and dust/sparkle shapes spread into soft, dim glows instead
         // of hard bright dots.
-        let mut fills = vec![(path.clone(), data.color)];
-        if let Some(stroke) = &data.stroke {
-            let sk_stroke = tiny_skia::Stroke {
-                width: stroke.width,
-                ..Default::default()
-            };
-            if let Some(outline) = tiny_skia::PathStroker::new().stroke(path, &sk_stroke, 1.0) {
-                fills.push((outline, stroke.color));
-            }
-        }
         let sigma = data.blur * BLUR_TO_SIGMA;
         if let Some((tile, x, y, _)) = blurred_fills(&fills, sigma, self.visible()) {
             self.blit(tile.as_ref(), (x, y), clip_mask.as_ref());
-- 
2.43.0


From 704faaea8e37c81c25b73c6028810d59a0cb9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 58/94] fix: a shadow is cast by text and outline together,
 offset on the screen

The shadow's offset was scaled and turned along with the text, the cached path left the
outline out of it, and a translucent shadow was darker where text and outline overlap.
---
 crates/ass-renderer/src/backends/geometry.rs  | 24 +++++++++-----
 .../src/backends/software/cache/blur_tile.rs  |  7 +++--
 .../src/backends/software/cache/coverage.rs   | 24 +++++++++++---
 .../src/backends/software/cache/mod.rs        |  9 +++---
 .../src/backends/software/dirty.rs            |  2 +-
 .../src/backends/software/text/blur.rs        | 15 ++++-----
 .../src/backends/software/text/decorations.rs | 31 +++++++------------
 7 files changed, 65 insertions(+), 47 deletions(-)

diff --git a/crates/ass-renderer/src/backends/geometry.rs b/crates/ass-renderer/src/backends/geometry.rs
index 9b9eb80..179da3a 100644
--- a/crates/ass-renderer/src/backends/geometry.rs
+++ b/crates/ass-renderer/src/backends/geometry.rs
@@ -43,6 +43,20 @@ pub(crate) fn stroke_outline(path: &tiny_skia::Path, wx: f32, wy: f32) -> Option
     widen(&scaled, wx)?.transform(Transform::from_scale(1.0, 1.0 / sy))
 }
 
+/// A path together with its outline, as one shape: what casts a shadow.
+#[cfg(not(feature = "nostd"))]
+pub(crate) fn silhouette(
+    path: &tiny_skia::Path,
+    outline: Option<(f32, f32)>,
+) -> Option<tiny_skia::Path> {
+    let mut builder = tiny_skia::PathBuilder::new();
+    builder.push_path(path);
+    if let Some(outlined) = outline.and_then(|(wx, wy)| stroke_outline(path, wx, wy)) {
+        builder.push_path(&outlined);
+    }
+    builder.finish()
+}
+
 /// The band within `width` of every contour of a path, each contour closed.
 ///
 /// The band is put together from a piece along every edge and one at every corner
@@ -262,12 +276,8 @@ pub(crate) fn project_path_3d(
     pb.finish()
 }
 
-/// Screen-space shadow displacement for a local-space `(sx, sy)` offset under the
-/// layer transform's linear part — so the fill tile can be reused as the shadow.
+/// The displacement of a shadow in whole pixels — so the shape's tile can be cast as it is.
 #[cfg(not(feature = "nostd"))]
-pub(crate) fn shadow_delta(local: Transform, sx: f32, sy: f32) -> (i32, i32) {
-    (
-        (sx * local.sx + sy * local.kx).round() as i32,
-        (sx * local.ky + sy * local.sy).round() as i32,
-    )
+pub(crate) fn shadow_delta(sx: f32, sy: f32) -> (i32, i32) {
+    (sx.round() as i32, sy.round() as i32)
 }
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index f1bb9a4..b6d2cf9 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -36,9 +36,10 @@ fn emit_cached(
                 color,
             }
         };
-    // Shadow: the fill shape in the shadow colour, displaced. Reuses the fill
-    // tile rather than a separately rasterized one.
-    if let (Some((color, (dx, dy))), Some((tile, ox, oy))) = (shadow, &cached.fill) {
+    // Shadow: the whole shape in the shadow colour, displaced. Without an outline it
+    // reuses the fill tile rather than a separately rasterized one.
+    let cast = cached.shadow.as_ref().or(cached.fill.as_ref());
+    if let (Some((color, (dx, dy))), Some((tile, ox, oy))) = (shadow, cast) {
         out.push(bitmap(
             tile,
             at(anchor_x, *ox, dx),
diff --git a/crates/ass-renderer/src/backends/software/cache/coverage.rs b/crates/ass-renderer/src/backends/software/cache/coverage.rs
index 892f7f0..3dd09fe 100644
--- a/crates/ass-renderer/src/backends/software/cache/coverage.rs
+++ b/crates/ass-renderer/src/backends/software/cache/coverage.rs
@@ -3,7 +3,7 @@
 
 use tiny_skia::Transform;
 
-use crate::backends::geometry::{merge_transformed, shadow_delta, stroke_outline};
+use crate::backends::geometry::{merge_transformed, shadow_delta, silhouette, stroke_outline};
 
 /// Rasterize a layer's fill and outline coverage in local space, or `None` when it
 /// is too large for a tile.
@@ -12,6 +12,7 @@ fn rasterize_run_coverage(
     paths: &[tiny_skia::Path],
     local: Transform,
     outline_width: Option<(f32, f32)>,
+    casts_shadow: bool,
 ) -> Option<super::CachedCoverage> {
     use crate::backends::coverage::CoverageTile;
 
@@ -21,6 +22,7 @@ fn rasterize_run_coverage(
         return Some(super::CachedCoverage {
             fill: None,
             outline: None,
+            shadow: None,
         });
     };
     let fill = Some(CoverageTile::rasterize(&merged)?);
@@ -30,7 +32,19 @@ fn rasterize_run_coverage(
         Some(outlined) => Some(CoverageTile::rasterize(&outlined)?),
         None => None,
     };
-    Some(super::CachedCoverage { fill, outline })
+    // Only an outline makes the shadow's shape another than the fill's.
+    let shadow = match outline_width.filter(|_| casts_shadow && outline.is_some()) {
+        Some(widths) => match silhouette(&merged, Some(widths)) {
+            Some(shape) => Some(CoverageTile::rasterize(&shape)?),
+            None => None,
+        },
+        None => None,
+    };
+    Some(super::CachedCoverage {
+        fill,
+        outline,
+        shadow,
+    })
 }
 
 impl super::super::SoftwareBackend {
@@ -61,7 +75,7 @@ impl super::super::SoftwareBackend {
         else {
             return false;
         };
-        let shadow_paint = shadow.map(|(c, sx, sy)| (c, shadow_delta(local, sx, sy)));
+        let shadow_paint = shadow.map(|(c, sx, sy)| (c, shadow_delta(sx, sy)));
         let anchor_x = data.x.round() as i32;
         let anchor_y = baseline_y.round() as i32;
         let pixmap_w = self.pixmap.width();
@@ -105,7 +119,7 @@ impl super::super::SoftwareBackend {
         let known = super::RUN_COVERAGE.with(|cache| cache.borrow().contains_key(&key));
         if !known {
             let widths = outline.map(|(_, wx, wy)| (wx, wy));
-            let Some(cached) = rasterize_run_coverage(paths, local, widths) else {
+            let Some(cached) = rasterize_run_coverage(paths, local, widths, shadow.is_some()) else {
                 return false;
             };
             super::RUN_COVERAGE.with(|cache| {
@@ -121,7 +135,7 @@ impl super::super::SoftwareBackend {
             });
         }
 
-        let shadow_paint = shadow.map(|(c, sx, sy)| (c, shadow_delta(local, sx, sy)));
+        let shadow_paint = shadow.map(|(c, sx, sy)| (c, shadow_delta(sx, sy)));
         let anchor_x = data.x.round() as i32;
         let anchor_y = baseline_y.round() as i32;
         let pixmap_w = self.pixmap.width();
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index c30ea57..783e03f 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -133,13 +133,14 @@ pub(super) struct BlurTile {
 
 /// Rasterized coverage tiles for one text layer, in position-independent local
 /// space. Each entry is the A8 tile plus its `(x, y)` offset from the layer
-/// anchor, so compositing happens at `anchor + offset`. The shadow is not stored
-/// separately: it is the fill shape, so it reuses the fill tile composited at an
-/// offset (see [`composite_cached`]).
+/// anchor, so compositing happens at `anchor + offset`. The shadow is stored
+/// only where an outline widens it: without one it is the fill shape, and reuses the
+/// fill tile composited at an offset (see [`composite_cached`]).
 #[cfg(not(feature = "nostd"))]
 struct CachedCoverage {
     fill: Option<(crate::backends::coverage::CoverageTile, i32, i32)>,
     outline: Option<(crate::backends::coverage::CoverageTile, i32, i32)>,
+    shadow: Option<(crate::backends::coverage::CoverageTile, i32, i32)>,
 }
 
 /// Bound on the coverage a thread keeps, in bytes.
@@ -150,7 +151,7 @@ const MAX_COVERAGE_BYTES: usize = 1 << 28;
 impl CachedCoverage {
     /// Bytes of coverage held.
     fn len(&self) -> usize {
-        [&self.fill, &self.outline]
+        [&self.fill, &self.outline, &self.shadow]
             .into_iter()
             .flatten()
             .map(|(tile, _, _)| tile.data.len())
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 81d824c..1c182cb 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -54,7 +54,7 @@ pub(super) fn text_vector_dirty_bbox(
             TextEffect::Shadow {
                 x_offset, y_offset, ..
             } => {
-                let (x, y) = shadow_delta(base_transform, *x_offset, *y_offset);
+                let (x, y) = shadow_delta(*x_offset, *y_offset);
                 shadow = shadow.max((x.unsigned_abs().max(y.unsigned_abs())) as f32);
             }
             TextEffect::Blur { radius } | TextEffect::EdgeBlur { radius } => {
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index e232def..269178a 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -3,7 +3,7 @@
 //! blur it, and composite at the baseline.
 
 use crate::backends::blur::{blurred_fills, BLUR_TO_SIGMA};
-use crate::backends::geometry::{merge_transformed, stroke_outline};
+use crate::backends::geometry::{merge_transformed, silhouette, stroke_outline};
 use crate::pipeline::{TextData, TextEffect};
 
 #[cfg(not(feature = "nostd"))]
@@ -45,12 +45,13 @@ impl super::super::SoftwareBackend {
             // of the final glyph, fill and border.
             let mut fills = Vec::new();
             if let Some((color, x, y)) = run.shadow_info {
-                if let Some(merged) = merge_transformed(&run.paths, local.pre_translate(x, y)) {
-                    if let Some((_, wx, wy)) = run.outline_info {
-                        fills.extend(stroke_outline(&merged, wx, wy).map(|p| (p, color)));
-                    }
-                    fills.push((merged, color));
-                }
+                let cast = local.post_translate(x, y);
+                let outline = run.outline_info.map(|(_, wx, wy)| (wx, wy));
+                fills.extend(
+                    merge_transformed(&run.paths, cast)
+                        .and_then(|merged| silhouette(&merged, outline))
+                        .map(|p| (p, color)),
+                );
             }
             if let Some(merged) = merge_transformed(&run.paths, local) {
                 if let Some((color, wx, wy)) = run.outline_info {
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 20b9139..899614c 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -4,7 +4,7 @@
 use tiny_skia::Transform;
 
 use crate::backends::blur::{blurred_fills, BLUR_TO_SIGMA};
-use crate::backends::geometry::{merge_transformed, stroke_outline};
+use crate::backends::geometry::{merge_transformed, silhouette, stroke_outline};
 use crate::pipeline::TextData;
 
 use super::TextRun;
@@ -21,27 +21,18 @@ impl super::super::SoftwareBackend {
                 shadow_paint.anti_alias = true;
                 shadow_paint.blend_mode = tiny_skia::BlendMode::SourceOver;
 
-                let shadow_transform = run.base_transform.pre_translate(x_offset, y_offset);
+                // The offset is one of the screen, whatever the text is scaled or turned by.
+                let shadow_transform = run.base_transform.post_translate(x_offset, y_offset);
 
-                if let Some(merged) = merge_transformed(&run.paths, shadow_transform) {
-                    // libass's shadow is the silhouette of the FINAL glyph (fill +
-                    // border), so when there is an outline, stroke it into the shadow
-                    // too. Without this the shadow is thinner than libass's by the
-                    // border width (and inconsistent with the \blur branch, which
-                    // already includes it).
-                    if let Some((_, owx, owy)) = run.outline_info {
-                        if let Some(stroked) = stroke_outline(&merged, owx, owy) {
-                            self.pixmap.fill_path(
-                                &stroked,
-                                &shadow_paint,
-                                tiny_skia::FillRule::Winding,
-                                Transform::identity(),
-                                None,
-                            );
-                        }
-                    }
+                // libass's shadow is the silhouette of the FINAL glyph (fill + border),
+                // so an outline casts it too. As one shape, so that a translucent
+                // shadow is not darker where the two overlap.
+                let outline = run.outline_info.map(|(_, wx, wy)| (wx, wy));
+                if let Some(shape) = merge_transformed(&run.paths, shadow_transform)
+                    .and_then(|merged| silhouette(&merged, outline))
+                {
                     self.pixmap.fill_path(
-                        &merged,
+                        &shape,
                         &shadow_paint,
                         tiny_skia::FillRule::Winding,
                         Transform::identity(),
-- 
2.43.0


From 699abd337876d7f164a03e2c8887aa11a73ae4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 59/94] fix: the pieces of a border lap over each other

---
 crates/ass-renderer/src/backends/geometry.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/ass-renderer/src/backends/geometry.rs b/crates/ass-renderer/src/backends/geometry.rs
index 179da3a..9ce992e 100644
--- a/crates/ass-renderer/src/backends/geometry.rs
+++ b/crates/ass-renderer/src/backends/geometry.rs
@@ -119,15 +119,20 @@ fn widen(path: &tiny_skia::Path, width: f32) -> Option<tiny_skia::Path> {
             } else {
                 (from + n0, from + n)
             };
+            let mid = Point::from_xy((a.x + b.x) / 2.0 - from.x, (a.y + b.y) / 2.0 - from.y);
+            let beyond = |k: f32| Point::from_xy(from.x + mid.x * k, from.y + mid.y * k);
+            // Lapping over the pieces beside it, for no seam to show between them
+            let lap = width.min(0.25);
+            let back = Point::from_xy(a.x - d0.x * lap, a.y - d0.y * lap);
+            let on = Point::from_xy(b.x + d.x * lap, b.y + d.y * lap);
+            let heel = beyond(-lap / width);
             // With the turn's half angle h the mitre is 1/cos(h) as long as the width
             let cos_half = ((1.0 + dot) / 2.0).max(0.0).sqrt();
             if cos_half * MITER_LIMIT >= 1.0 {
-                let mid = Point::from_xy((a.x + b.x) / 2.0 - from.x, (a.y + b.y) / 2.0 - from.y);
-                let tip = 1.0 / (cos_half * cos_half);
-                let tip = Point::from_xy(from.x + mid.x * tip, from.y + mid.y * tip);
-                piece(&mut [from, a, tip, b]);
+                let tip = beyond(1.0 / (cos_half * cos_half));
+                piece(&mut [heel, back, a, tip, b, on]);
             } else {
-                piece(&mut [from, a, b]);
+                piece(&mut [heel, back, a, b, on]);
             }
         }
     }
-- 
2.43.0


From f33fa92dad2b49910e6d5c0af6b33bef503e7bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 60/94] fix: a style builder refuses values that do not fit in
 their column

A value with a comma or a line break gave a line with its columns shifted. The columns of a
format line are found whatever their case, as the parser finds them.
---
 .../ass-editor/core/builders/style_build.rs   | 62 +------------------
 .../ass-editor/core/builders/style_format.rs  | 61 +++++++++---------
 2 files changed, 35 insertions(+), 88 deletions(-)

diff --git a/crates/ass-editor/core/builders/style_build.rs b/crates/ass-editor/core/builders/style_build.rs
index 17d13e6..5244e1d 100644
--- a/crates/ass-editor/core/builders/style_build.rs
+++ b/crates/ass-editor/core/builders/style_build.rs
@@ -5,70 +5,12 @@ use crate::core::errors::Result;
 use ass_core::ScriptVersion;
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec,
-};
+use alloc::{string::String, vec};
 
 impl StyleBuilder {
     /// Build the style (validates required fields)
     pub fn build(self) -> Result<String> {
-        let name = self.name.unwrap_or_else(|| "NewStyle".to_string());
-        let fontname = self.fontname.unwrap_or_else(|| "Arial".to_string());
-        let fontsize = self.fontsize.unwrap_or(20);
-        let primary_colour = self
-            .primary_colour
-            .unwrap_or_else(|| "&Hffffff".to_string());
-        let secondary_colour = self
-            .secondary_colour
-            .unwrap_or_else(|| "&Hff0000".to_string());
-        let outline_colour = self.outline_colour.unwrap_or_else(|| "&H0".to_string());
-        let back_colour = self.back_colour.unwrap_or_else(|| "&H0".to_string());
-        let bold = if self.bold.unwrap_or(false) {
-            "-1"
-        } else {
-            "0"
-        };
-        let italic = if self.italic.unwrap_or(false) {
-            "-1"
-        } else {
-            "0"
-        };
-        let underline = if self.underline.unwrap_or(false) {
-            "-1"
-        } else {
-            "0"
-        };
-        let strikeout = if self.strikeout.unwrap_or(false) {
-            "-1"
-        } else {
-            "0"
-        };
-        let scale_x = self.scale_x.unwrap_or(100.0);
-        let scale_y = self.scale_y.unwrap_or(100.0);
-        let spacing = self.spacing.unwrap_or(0.0);
-        let angle = self.angle.unwrap_or(0.0);
-        let border_style = self.border_style.unwrap_or(1);
-        let outline = self.outline.unwrap_or(2.0);
-        let shadow = self.shadow.unwrap_or(0.0);
-        let alignment = self.alignment.unwrap_or(2);
-        let margin_l = self.margin_l.unwrap_or(10);
-        let margin_r = self.margin_r.unwrap_or(10);
-        let margin_v = self.margin_v.unwrap_or(10);
-        let encoding = self.encoding.unwrap_or(1);
-
-        // Handle V4++ fields - margin_t/margin_b override margin_v when present
-        // relative_to is also a V4++ field
-        // Note: The actual format line would determine the field order and presence
-        // For now, we use the standard V4+ format
-
-        // Format as ASS style line
-        let line = format!(
-            "Style: {name},{fontname},{fontsize},{primary_colour},{secondary_colour},{outline_colour},{back_colour},{bold},{italic},{underline},{strikeout},{scale_x},{scale_y},{spacing},{angle},{border_style},{outline},{shadow},{alignment},{margin_l},{margin_r},{margin_v},{encoding}"
-        );
-
-        Ok(line)
+        self.build_with_version(ScriptVersion::AssV4)
     }
 
     /// Build the style with a specific version format
diff --git a/crates/ass-editor/core/builders/style_format.rs b/crates/ass-editor/core/builders/style_format.rs
index 760bd06..c3c4531 100644
--- a/crates/ass-editor/core/builders/style_format.rs
+++ b/crates/ass-editor/core/builders/style_format.rs
@@ -24,72 +24,77 @@ impl StyleBuilder {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Name" => self.name.clone().unwrap_or_else(|| "NewStyle".to_string()),
-                "Fontname" => self.fontname.clone().unwrap_or_else(|| "Arial".to_string()),
-                "Fontsize" => self.fontsize.unwrap_or(20).to_string(),
-                "PrimaryColour" => self
+            let value = match field.to_ascii_lowercase().as_str() {
+                "name" => self.name.clone().unwrap_or_else(|| "NewStyle".to_string()),
+                "fontname" => self.fontname.clone().unwrap_or_else(|| "Arial".to_string()),
+                "fontsize" => self.fontsize.unwrap_or(20).to_string(),
+                "primarycolour" => self
                     .primary_colour
                     .clone()
                     .unwrap_or_else(|| "&Hffffff".to_string()),
-                "SecondaryColour" => self
+                "secondarycolour" => self
                     .secondary_colour
                     .clone()
                     .unwrap_or_else(|| "&Hff0000".to_string()),
-                "OutlineColour" | "TertiaryColour" => self
+                "outlinecolour" | "tertiarycolour" => self
                     .outline_colour
                     .clone()
                     .unwrap_or_else(|| "&H0".to_string()),
-                "BackColour" => self
+                "backcolour" => self
                     .back_colour
                     .clone()
                     .unwrap_or_else(|| "&H0".to_string()),
-                "Bold" => if self.bold.unwrap_or(false) {
+                "bold" => if self.bold.unwrap_or(false) {
                     "-1"
                 } else {
                     "0"
                 }
                 .to_string(),
-                "Italic" => if self.italic.unwrap_or(false) {
+                "italic" => if self.italic.unwrap_or(false) {
                     "-1"
                 } else {
                     "0"
                 }
                 .to_string(),
-                "Underline" => if self.underline.unwrap_or(false) {
+                "underline" => if self.underline.unwrap_or(false) {
                     "-1"
                 } else {
                     "0"
                 }
                 .to_string(),
-                "Strikeout" | "StrikeOut" => if self.strikeout.unwrap_or(false) {
+                "strikeout" => if self.strikeout.unwrap_or(false) {
                     "-1"
                 } else {
                     "0"
                 }
                 .to_string(),
-                "ScaleX" => self.scale_x.unwrap_or(100.0).to_string(),
-                "ScaleY" => self.scale_y.unwrap_or(100.0).to_string(),
-                "Spacing" => self.spacing.unwrap_or(0.0).to_string(),
-                "Angle" => self.angle.unwrap_or(0.0).to_string(),
-                "BorderStyle" => self.border_style.unwrap_or(1).to_string(),
-                "Outline" => self.outline.unwrap_or(2.0).to_string(),
-                "Shadow" => self.shadow.unwrap_or(0.0).to_string(),
-                "Alignment" => self.alignment.unwrap_or(2).to_string(),
-                "MarginL" => self.margin_l.unwrap_or(10).to_string(),
-                "MarginR" => self.margin_r.unwrap_or(10).to_string(),
-                "MarginV" => self.margin_v.unwrap_or(10).to_string(),
-                "MarginT" => self.margin_t.unwrap_or(0).to_string(),
-                "MarginB" => self.margin_b.unwrap_or(0).to_string(),
-                "Encoding" => self.encoding.unwrap_or(1).to_string(),
-                "AlphaLevel" => self.alpha_level.unwrap_or(0).to_string(),
-                "RelativeTo" => self.relative_to.clone().unwrap_or_else(|| "0".to_string()),
+                "scalex" => self.scale_x.unwrap_or(100.0).to_string(),
+                "scaley" => self.scale_y.unwrap_or(100.0).to_string(),
+                "spacing" => self.spacing.unwrap_or(0.0).to_string(),
+                "angle" => self.angle.unwrap_or(0.0).to_string(),
+                "borderstyle" => self.border_style.unwrap_or(1).to_string(),
+                "outline" => self.outline.unwrap_or(2.0).to_string(),
+                "shadow" => self.shadow.unwrap_or(0.0).to_string(),
+                "alignment" => self.alignment.unwrap_or(2).to_string(),
+                "marginl" => self.margin_l.unwrap_or(10).to_string(),
+                "marginr" => self.margin_r.unwrap_or(10).to_string(),
+                "marginv" => self.margin_v.unwrap_or(10).to_string(),
+                "margint" => self.margin_t.unwrap_or(0).to_string(),
+                "marginb" => self.margin_b.unwrap_or(0).to_string(),
+                "encoding" => self.encoding.unwrap_or(1).to_string(),
+                "alphalevel" => self.alpha_level.unwrap_or(0).to_string(),
+                "relativeto" => self.relative_to.clone().unwrap_or_else(|| "0".to_string()),
                 _ => {
                     return Err(EditorError::FormatLineError {
                         message: format!("Unknown style field: {field}"),
                     })
                 }
             };
+            if value.contains([',', '\n', '\r']) {
+                return Err(EditorError::FormatLineError {
+                    message: format!("Value does not fit in its column: {field}"),
+                });
+            }
             field_values.push(value);
         }
 
-- 
2.43.0


From 32bac5bb9e94e0f204f309277aa8a694b710f51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 61/94] fix: style commands act on the style of that exact name

Style lines were searched for by their first characters anywhere in the text, so another
style with a longer name, a comment or a field was edited, deleted or cloned instead. Columns
were off when the name column is not the first, new lines landed inside other lines at the
end of a text or before the format line, and applying a style changed any column that held
the old name.
---
 .../commands/event_commands/helpers.rs        |  15 +-
 .../ass-editor/commands/event_commands/mod.rs |   2 +-
 .../commands/style_commands/apply.rs          | 114 ++--------
 .../commands/style_commands/clone.rs          |  60 ++---
 .../commands/style_commands/create.rs         |  73 ++-----
 .../commands/style_commands/delete.rs         |  38 +---
 .../commands/style_commands/edit.rs           |  95 ++------
 crates/ass-editor/core/document/mod.rs        |   4 +
 .../ass-editor/core/document/section_lines.rs |  46 ++--
 .../ass-editor/core/document/section_text.rs  | 206 ++++++++++++++++++
 .../ass-editor/core/document/style_lines.rs   | 148 +++++++++++++
 11 files changed, 462 insertions(+), 339 deletions(-)
 create mode 100644 crates/ass-editor/core/document/section_text.rs
 create mode 100644 crates/ass-editor/core/document/style_lines.rs

diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index 0bcd177..927ab36 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -18,7 +18,7 @@ pub(super) fn event_at(document: &EditorDocument, index: usize) -> Result<EventL
 /// Rewrite the selected events, all of them for an empty selection
 ///
 /// Returns the number of rewritten events and the range they are in.
-pub(super) fn rewrite_events<F>(
+pub(crate) fn rewrite_events<F>(
     document: &mut EditorDocument,
     indices: &[usize],
     mut rewrite: F,
@@ -51,16 +51,7 @@ where
     Ok(rewritten)
 }
 
-/// Range of a line together with its line break
+/// Range of an event line together with its line break
 pub(super) fn whole_line(content: &str, event: &EventLine) -> Range {
-    let start = content[..event.start].rfind('\n').map_or(0, |n| n + 1);
-    let start = if content[start..event.start].trim().is_empty() {
-        start
-    } else {
-        event.start
-    };
-    let end = content[event.end..]
-        .find('\n')
-        .map_or(content.len(), |n| event.end + n + 1);
-    Range::new(Position::new(start), Position::new(end))
+    crate::core::document::whole_line(content, event.start, event.end)
 }
diff --git a/crates/ass-editor/commands/event_commands/mod.rs b/crates/ass-editor/commands/event_commands/mod.rs
index aa56268..1a523d8 100644
--- a/crates/ass-editor/commands/event_commands/mod.rs
+++ b/crates/ass-editor/commands/event_commands/mod.rs
@@ -7,7 +7,7 @@ mod batch_delete;
 mod delete;
 mod effect;
 mod effect_exec;
-mod helpers;
+pub(crate) mod helpers;
 mod merge;
 mod split;
 mod timing;
diff --git a/crates/ass-editor/commands/style_commands/apply.rs b/crates/ass-editor/commands/style_commands/apply.rs
index 730481f..20676a8 100644
--- a/crates/ass-editor/commands/style_commands/apply.rs
+++ b/crates/ass-editor/commands/style_commands/apply.rs
@@ -3,14 +3,14 @@
 //! Provides [`ApplyStyleCommand`] to retarget events from one style to
 //! another, with an optional text filter on event lines.
 
+use crate::commands::event_commands::helpers::rewrite_events;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 
 /// Command to apply a style to events (change all events using one style to another)
@@ -49,100 +49,26 @@ impl ApplyStyleCommand {
 
 impl EditorCommand for ApplyStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let mut changes_made = 0;
-        let mut total_range: Option<Range> = None;
-
-        // Find events section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip format line
-        let events_content_start = content[events_start..]
-            .find('\n')
-            .map(|pos| events_start + pos + 1)
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Skip format line again (Format: ...)
-        let first_event_start = content[events_content_start..]
-            .find('\n')
-            .map(|pos| events_content_start + pos + 1)
-            .unwrap_or(events_content_start);
-
-        let mut search_pos = first_event_start;
-
-        while search_pos < content.len() {
-            // Find next event line
-            let line_start = search_pos;
-            let line_end = content[line_start..]
-                .find('\n')
-                .map(|pos| line_start + pos)
-                .unwrap_or(content.len());
-
-            if line_start >= line_end {
-                break;
-            }
-
-            let line = &content[line_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let parts: Vec<&str> = line.split(',').collect();
-
-                // Check if this event uses the old style (typically 4th field after event type)
-                if parts.len() > 4 && parts[3].trim() == self.old_style {
-                    // Apply filter if specified
-                    let should_update = if let Some(ref filter) = self.event_filter {
-                        line.contains(filter)
-                    } else {
-                        true
-                    };
-
-                    if should_update {
-                        // Replace the old style with new style
-                        let updated_line = line.replace(
-                            &format!(",{},", self.old_style),
-                            &format!(",{},", self.new_style),
-                        );
-
-                        // Update the document
-                        let range = Range::new(Position::new(line_start), Position::new(line_end));
-                        document.replace(range, &updated_line)?;
-
-                        // Update content for next iteration (this is inefficient but correct)
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(line_start),
-                            Position::new(line_start + updated_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
-
-                        changes_made += 1;
-                    }
-                }
-            } else if line.starts_with('[') && line != "[Events]" {
-                // Stop at next section
-                break;
+        let applied = rewrite_events(document, &[], |event| {
+            let is_selected = event.get("Style") == self.old_style.trim()
+                && self
+                    .event_filter
+                    .as_ref()
+                    .is_none_or(|filter| event.get("Text").contains(filter));
+            if is_selected {
+                event.with(&[("Style", self.new_style.as_str())]).map(Some)
+            } else {
+                Ok(None)
             }
-
-            search_pos = line_end + 1;
-        }
-
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
+        })?;
+
+        if let Some((changes_made, range)) = applied {
+            Ok(
+                CommandResult::success_with_change(range, range.end).with_message(format!(
+                    "Applied style '{}' to {} events",
+                    self.new_style, changes_made
+                )),
             )
-            .with_message(format!(
-                "Applied style '{}' to {} events",
-                self.new_style, changes_made
-            )))
         } else {
             Ok(CommandResult::success()
                 .with_message("No events found matching the criteria".to_string()))
diff --git a/crates/ass-editor/commands/style_commands/clone.rs b/crates/ass-editor/commands/style_commands/clone.rs
index c62524f..1e3a646 100644
--- a/crates/ass-editor/commands/style_commands/clone.rs
+++ b/crates/ass-editor/commands/style_commands/clone.rs
@@ -37,58 +37,32 @@ impl CloneStyleCommand {
 
 impl EditorCommand for CloneStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text();
-        let source_pattern = format!("Style: {}", self.source_style);
-
         // Check if target style already exists
-        let target_pattern = format!("Style: {}", self.target_style);
-        if content.contains(&target_pattern) {
+        if document.style_line(&self.target_style).is_some() {
             return Err(EditorError::command_failed(format!(
                 "Style '{}' already exists",
                 self.target_style
             )));
         }
 
-        if let Some(source_start) = content.find(&source_pattern) {
-            // Find the complete source style line
-            let line_start = content[..source_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[source_start..]
-                .find('\n')
-                .map(|pos| source_start + pos)
-                .unwrap_or(content.len());
-
-            let source_line = &content[line_start..line_end];
-
-            // Replace the style name in the cloned line
-            let cloned_line = source_line.replace(
-                &format!("Style: {}", self.source_style),
-                &format!("Style: {}", self.target_style),
-            );
+        let source = document.style_line(&self.source_style).ok_or_else(|| {
+            EditorError::command_failed(format!("Source style '{}' not found", self.source_style))
+        })?;
+        let cloned_line = source.with(&[("Name", self.target_style.as_str())])?;
 
-            // Find where to insert the new style (after the source style)
-            let insert_pos = line_end;
-            let insert_text = format!("\n{cloned_line}");
+        // Insert the new style after the source style
+        let insert_text = format!("\n{cloned_line}");
+        document.insert(Position::new(source.end), &insert_text)?;
 
-            document.insert(Position::new(insert_pos), &insert_text)?;
-
-            let end_pos = Position::new(insert_pos + insert_text.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(insert_pos), end_pos),
-                end_pos,
-            )
-            .with_message(format!(
-                "Cloned style '{}' to '{}'",
-                self.source_style, self.target_style
-            )))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Source style '{}' not found",
-                self.source_style
-            )))
-        }
+        let end_pos = Position::new(source.end + insert_text.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(source.end), end_pos),
+            end_pos,
+        )
+        .with_message(format!(
+            "Cloned style '{}' to '{}'",
+            self.source_style, self.target_style
+        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index bdcf344..6bb9da1 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -4,10 +4,11 @@
 //! section, creating the section when it does not yet exist.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result, StyleBuilder};
+use crate::core::document::{columns_of, SectionText};
+use crate::core::{EditorDocument, Result, StyleBuilder};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::{format, string::String, vec::Vec};
 
 /// Command to create a new style
 #[derive(Debug, Clone)]
@@ -37,68 +38,28 @@ impl CreateStyleCommand {
 
 impl EditorCommand for CreateStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        // Build the style line with the provided name
-        let mut builder = self.style_builder.clone();
-        builder = builder.name(&self.style_name);
-        let style_line = builder.build()?;
+        let builder = self.style_builder.clone().name(&self.style_name);
 
-        // Find the styles section or create one
+        // Insert the style after the format line of the styles section
         let content = document.text();
-        let styles_section_pos = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-            .or_else(|| content.find("[Styles]"));
+        if let Some(section) = SectionText::styles(&content) {
+            let columns = columns_of(&section, &content);
+            let columns: Vec<&str> = columns.iter().map(String::as_str).collect();
+            let style_line = builder.build_with_format(&columns)?;
 
-        if let Some(section_start) = styles_section_pos {
-            // Find the end of the format line to insert after it
-            let section_content = &content[section_start..];
-            if let Some(format_line_end) = section_content.find('\n') {
-                let format_end_pos = section_start + format_line_end + 1;
-
-                // Find next format line or end of section
-                let insert_pos = if let Some(next_line_start) = content[format_end_pos..].find('\n')
-                {
-                    format_end_pos + next_line_start + 1
-                } else {
-                    format_end_pos
-                };
-
-                // Insert the new style
-                let insert_text = format!("{style_line}\n");
-                document.insert(Position::new(insert_pos), &insert_text)?;
-
-                let end_pos = Position::new(insert_pos + insert_text.len());
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(insert_pos), end_pos),
-                    end_pos,
-                )
+            let range = document.insert_line(section.first_entry(&content), &style_line)?;
+            return Ok(CommandResult::success_with_change(range, range.end)
                 .with_message(format!("Created style '{}'", self.style_name)));
-            }
         }
 
         // No styles section found, create one
-        let styles_section = format!(
-            "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n"
-        );
-
-        // Insert before [Events] section if it exists, otherwise at the end
-        let insert_pos = if let Some(events_pos) = content.find("[Events]") {
-            events_pos
-        } else {
-            content.len()
-        };
-
-        document.insert(Position::new(insert_pos), &styles_section)?;
-
-        let end_pos = Position::new(insert_pos + styles_section.len());
-        Ok(CommandResult::success_with_change(
-            Range::new(Position::new(insert_pos), end_pos),
-            end_pos,
+        let range = document.insert_styles_section(&builder.build()?)?;
+        Ok(
+            CommandResult::success_with_change(range, range.end).with_message(format!(
+                "Created styles section and style '{}'",
+                self.style_name
+            )),
         )
-        .with_message(format!(
-            "Created styles section and style '{}'",
-            self.style_name
-        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/delete.rs b/crates/ass-editor/commands/style_commands/delete.rs
index 2d92380..0efd2c5 100644
--- a/crates/ass-editor/commands/style_commands/delete.rs
+++ b/crates/ass-editor/commands/style_commands/delete.rs
@@ -4,7 +4,8 @@
 //! styles section.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::document::whole_line;
+use crate::core::{EditorDocument, EditorError, Range, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{format, string::String};
@@ -35,34 +36,17 @@ impl DeleteStyleCommand {
 
 impl EditorCommand for DeleteStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
+        let style = document.style_line(&self.style_name).ok_or_else(|| {
+            EditorError::command_failed(format!("Style '{}' not found", self.style_name))
+        })?;
 
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the complete line including the newline
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos + 1) // Include the newline
-                .unwrap_or(content.len());
+        let range = whole_line(&document.text(), style.start, style.end);
+        document.delete(range)?;
 
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), Position::new(line_start)),
-                Position::new(line_start),
-            )
-            .with_message(format!("Deleted style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Style '{}' not found",
-                self.style_name
-            )))
-        }
+        Ok(
+            CommandResult::success_with_change(Range::new(range.start, range.start), range.start)
+                .with_message(format!("Deleted style '{}'", self.style_name)),
+        )
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/edit.rs b/crates/ass-editor/commands/style_commands/edit.rs
index 801ccab..1f63813 100644
--- a/crates/ass-editor/commands/style_commands/edit.rs
+++ b/crates/ass-editor/commands/style_commands/edit.rs
@@ -83,82 +83,25 @@ impl EditStyleCommand {
 
 impl EditorCommand for EditStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
-
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the end of the style line
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos)
-                .unwrap_or(content.len());
-
-            let style_line = &content[line_start..line_end];
-            let fields: Vec<&str> = style_line.split(',').collect();
-
-            if fields.len() < 2 {
-                return Err(EditorError::command_failed("Invalid style format"));
-            }
-
-            // Find format line to determine field order
-            let styles_section_start = content[..line_start]
-                .rfind("[V4+ Styles]")
-                .or_else(|| content[..line_start].rfind("[V4 Styles]"))
-                .or_else(|| content[..line_start].rfind("[Styles]"))
-                .ok_or_else(|| EditorError::command_failed("Could not find styles section"))?;
-
-            let format_line_start = content[styles_section_start..]
-                .find("Format:")
-                .map(|pos| styles_section_start + pos)
-                .ok_or_else(|| EditorError::command_failed("Could not find format line"))?;
-
-            let format_line_end = content[format_line_start..]
-                .find('\n')
-                .map(|pos| format_line_start + pos)
-                .unwrap_or(content.len());
-
-            let format_line = &content[format_line_start..format_line_end];
-            let format_fields: Vec<&str> = format_line
-                .strip_prefix("Format: ")
-                .unwrap_or(format_line)
-                .split(", ")
-                .collect();
-
-            // Build updated style line
-            let mut updated_fields = fields
-                .iter()
-                .map(|f| f.to_string())
-                .collect::<Vec<String>>();
-
-            for (field_name, new_value) in &self.field_updates {
-                if let Some(field_index) = format_fields.iter().position(|f| f == field_name) {
-                    if field_index < updated_fields.len() {
-                        updated_fields[field_index] = new_value.clone();
-                    }
-                }
-            }
-
-            let new_style_line = updated_fields.join(",");
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            document.replace(range, &new_style_line)?;
-
-            let end_pos = Position::new(line_start + new_style_line.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), end_pos),
-                end_pos,
-            )
-            .with_message(format!("Updated style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Style '{}' not found",
-                self.style_name
-            )))
-        }
+        let style = document.style_line(&self.style_name).ok_or_else(|| {
+            EditorError::command_failed(format!("Style '{}' not found", self.style_name))
+        })?;
+        let changes: Vec<(&str, &str)> = self
+            .field_updates
+            .iter()
+            .map(|(column, value)| (column.as_str(), value.as_str()))
+            .collect();
+        let new_line = style.with(&changes)?;
+
+        let range = Range::new(Position::new(style.start), Position::new(style.end));
+        document.replace(range, &new_line)?;
+
+        let end_pos = Position::new(style.start + new_line.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(style.start), end_pos),
+            end_pos,
+        )
+        .with_message(format!("Updated style '{}'", self.style_name)))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index b3d2c6f..615c2f5 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -15,6 +15,8 @@ mod incremental_parse;
 mod metadata;
 mod position_api;
 mod section_lines;
+mod section_text;
+mod style_lines;
 mod text_access;
 mod types;
 mod undo_redo;
@@ -48,6 +50,8 @@ mod plugin_tests;
 
 pub(crate) use event_lines::EventLine;
 pub use position_api::DocumentPosition;
+pub(crate) use section_text::{key_and_value, whole_line, SectionText};
+pub(crate) use style_lines::columns_of;
 pub use types::EditorDocument;
 
 #[cfg(feature = "std")]
diff --git a/crates/ass-editor/core/document/section_lines.rs b/crates/ass-editor/core/document/section_lines.rs
index e1d7008..72c965a 100644
--- a/crates/ass-editor/core/document/section_lines.rs
+++ b/crates/ass-editor/core/document/section_lines.rs
@@ -3,6 +3,7 @@
 //! Text-level helpers that insert new dialogue or style lines, creating the
 //! relevant section (with a default format line) when it does not yet exist.
 
+use super::section_text::{SectionText, EVENTS_FORMAT};
 use super::EditorDocument;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
@@ -14,30 +15,23 @@ impl EditorDocument {
     /// Add event line to document
     pub fn add_event_line(&mut self, event_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(events_pos) = content.find("[Events]") {
-            // Find end of format line and add after it
-            let format_start = content[events_pos..].find("Format:").unwrap_or(0) + events_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{event_line}\n"))
+        if let Some(events) = SectionText::find(&content, &["Events"]) {
+            // Add it after the format line
+            self.insert_line(events.first_entry(&content), event_line)?;
         } else {
             // Add Events section if it doesn't exist
-            let content_len = self.len_bytes();
-            let events_section = format!("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n{event_line}\n");
-            self.insert(Position::new(content_len), &events_section)
+            self.insert_line(
+                content.len(),
+                &format!("\n[Events]\n{EVENTS_FORMAT}\n{event_line}"),
+            )?;
         }
+        Ok(())
     }
 
     /// Edit style line
     pub fn edit_style_line(&mut self, style_name: &str, new_style_line: &str) -> Result<()> {
-        let content = self.text();
-        let pattern = format!("Style: {style_name},");
-
-        if let Some(pos) = content.find(&pattern) {
-            // Find end of line
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-            let range = Range::new(Position::new(pos), Position::new(line_end));
+        if let Some(style) = self.style_line(style_name) {
+            let range = Range::new(Position::new(style.start), Position::new(style.end));
             self.replace(range, new_style_line)
         } else {
             // Add style if it doesn't exist
@@ -48,21 +42,13 @@ impl EditorDocument {
     /// Add style line to document
     pub fn add_style_line(&mut self, style_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(styles_pos) = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-        {
-            // Find end of format line and add after it
-            let format_start = content[styles_pos..].find("Format:").unwrap_or(0) + styles_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{style_line}\n"))
+        if let Some(styles) = SectionText::styles(&content) {
+            // Add it after the format line
+            self.insert_line(styles.first_entry(&content), style_line)?;
         } else {
             // Add Styles section if it doesn't exist
-            let script_info_end = content.find("\n[Events]").unwrap_or(content.len());
-            let styles_section = format!("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n");
-            self.insert(Position::new(script_info_end), &styles_section)
+            self.insert_styles_section(style_line)?;
         }
+        Ok(())
     }
 }
diff --git a/crates/ass-editor/core/document/section_text.rs b/crates/ass-editor/core/document/section_text.rs
new file mode 100644
index 0000000..24c8341
--- /dev/null
+++ b/crates/ass-editor/core/document/section_text.rs
@@ -0,0 +1,206 @@
+//! Sections of the document as stretches of its text
+//!
+//! Finds the section headers and the lines of a section the way the parser
+//! does, so that lines can be added, changed and removed in their own section.
+
+use super::EditorDocument;
+use crate::core::errors::{EditorError, Result};
+use crate::core::position::{Position, Range};
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Default format line of a new styles section
+pub(crate) const STYLES_FORMAT: &str = "Format: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding";
+
+/// Default format line of a new events section
+pub(crate) const EVENTS_FORMAT: &str =
+    "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text";
+
+/// One section of the document text
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub(crate) struct SectionText {
+    /// Name between the brackets
+    pub name: String,
+    /// Offset of the header
+    pub header: usize,
+    /// Offset of the first line after the header line
+    pub body: usize,
+    /// Offset after the last line of the section
+    pub end: usize,
+}
+
+/// One line of a section without white space around it
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(crate) struct LineText<'a> {
+    /// Offset of the first character
+    pub start: usize,
+    /// Offset after the last character
+    pub end: usize,
+    /// Offset of the next line
+    pub next: usize,
+    /// The line
+    pub text: &'a str,
+}
+
+impl SectionText {
+    /// All sections of a text in order
+    pub fn all(text: &str) -> Vec<Self> {
+        let mut sections: Vec<Self> = Vec::new();
+        for line in lines(text, 0, text.len()) {
+            if !line.text.starts_with('[') {
+                continue;
+            }
+            if let Some(last) = sections.last_mut() {
+                last.end = line.start;
+            }
+            let name = line.text[1..].split(']').next().unwrap_or_default();
+            sections.push(Self {
+                name: name.trim().to_string(),
+                header: line.start,
+                body: line.next,
+                end: text.len(),
+            });
+        }
+        sections
+    }
+
+    /// The first section with one of the names
+    pub fn find(text: &str, names: &[&str]) -> Option<Self> {
+        Self::all(text)
+            .into_iter()
+            .find(|section| names.contains(&section.name.as_str()))
+    }
+
+    /// The first styles section
+    pub fn styles(text: &str) -> Option<Self> {
+        Self::all(text).into_iter().find(Self::holds_styles)
+    }
+
+    /// Whether this is a styles section
+    pub fn holds_styles(&self) -> bool {
+        matches!(
+            self.name.as_str(),
+            "V4+ Styles" | "V4 Styles" | "V4++ Styles"
+        )
+    }
+
+    /// The lines of the section with content, without comments
+    pub fn lines<'a>(&self, text: &'a str) -> impl Iterator<Item = LineText<'a>> {
+        lines(text, self.body, self.end)
+            .filter(|line| !line.text.is_empty() && !line.text.starts_with([';', '#']))
+    }
+
+    /// Offset of the line after the format line, or of the first line
+    pub fn first_entry(&self, text: &str) -> usize {
+        self.lines(text)
+            .find(|line| line.text.starts_with("Format:"))
+            .map_or(self.body, |line| line.next)
+    }
+}
+
+/// Lines between two offsets, without a byte order mark before the first
+fn lines(text: &str, from: usize, to: usize) -> impl Iterator<Item = LineText<'_>> {
+    let mut next = from;
+    text[from..to].split_inclusive('\n').map(move |line| {
+        let line_start = next;
+        next += line.len();
+        let content = line.trim_start_matches('\u{feff}').trim_start();
+        let start = line_start + line.len() - content.len();
+        let content = content.trim_end();
+        LineText {
+            start,
+            end: start + content.len(),
+            next,
+            text: content,
+        }
+    })
+}
+
+/// The key and the value of a `Key: value` line
+pub(crate) fn key_and_value(line: &str) -> Option<(&str, &str)> {
+    line.split_once(':')
+        .map(|(key, value)| (key.trim(), value.trim()))
+}
+
+/// Range of a line together with its line break
+pub(crate) fn whole_line(content: &str, start: usize, end: usize) -> Range {
+    let line_start = content[..start].rfind('\n').map_or(0, |n| n + 1);
+    let line_start = if content[line_start..start].trim().is_empty() {
+        line_start
+    } else {
+        start
+    };
+    let line_end = content[end..]
+        .find('\n')
+        .map_or(content.len(), |n| end + n + 1);
+    Range::new(Position::new(line_start), Position::new(line_end))
+}
+
+impl EditorDocument {
+    /// Insert a whole line before the line at an offset
+    pub(crate) fn insert_line(&mut self, offset: usize, line: &str) -> Result<Range> {
+        let content = self.text();
+        let before = content[..offset].trim_start_matches('\u{feff}');
+        let inserted = if before.is_empty() || before.ends_with('\n') {
+            format!("{line}\n")
+        } else {
+            format!("\n{line}\n")
+        };
+        self.insert(Position::new(offset), &inserted)?;
+        Ok(Range::new(
+            Position::new(offset),
+            Position::new(offset + inserted.len()),
+        ))
+    }
+
+    /// Insert a new styles section with one style before the events
+    pub(crate) fn insert_styles_section(&mut self, style_line: &str) -> Result<Range> {
+        let content = self.text();
+        let offset =
+            SectionText::find(&content, &["Events"]).map_or(content.len(), |events| events.header);
+        self.insert_line(
+            offset,
+            &format!("\n[V4+ Styles]\n{STYLES_FORMAT}\n{style_line}"),
+        )
+    }
+
+    /// Set a field of the first script info section, adding it if it is new
+    ///
+    /// Returns the range of the line, or nothing without a script info section.
+    pub(crate) fn write_script_info(&mut self, key: &str, value: &str) -> Result<Option<Range>> {
+        let key = key.trim();
+        if key.is_empty()
+            || key.starts_with(['[', ';', '#'])
+            || key.contains([':', '\n', '\r'])
+            || value.contains(['\n', '\r'])
+        {
+            return Err(EditorError::command_failed(format!(
+                "Not a script info field: {key}: {value}"
+            )));
+        }
+        let line = format!("{key}: {value}");
+        let content = self.text();
+        let Some(section) = SectionText::find(&content, &["Script Info"]) else {
+            return Ok(None);
+        };
+        let existing = section
+            .lines(&content)
+            .find(|line| key_and_value(line.text).is_some_and(|(name, _)| name == key));
+        let Some(existing) = existing else {
+            return self.insert_line(section.body, &line).map(Some);
+        };
+        self.replace(
+            Range::new(Position::new(existing.start), Position::new(existing.end)),
+            &line,
+        )?;
+        Ok(Some(Range::new(
+            Position::new(existing.start),
+            Position::new(existing.start + line.len()),
+        )))
+    }
+}
diff --git a/crates/ass-editor/core/document/style_lines.rs b/crates/ass-editor/core/document/style_lines.rs
new file mode 100644
index 0000000..16c91e3
--- /dev/null
+++ b/crates/ass-editor/core/document/style_lines.rs
@@ -0,0 +1,148 @@
+//! Style lines of the document as the parser reads them
+//!
+//! Gives every style its place in the text and its columns under the names of
+//! the format line, so that one column can be changed and the rest of the line
+//! stays as it is written.
+
+use super::section_text::SectionText;
+use super::EditorDocument;
+use crate::core::errors::{EditorError, Result};
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Columns of a styles section without a format line
+const DEFAULT_COLUMNS: [&str; 23] = [
+    "Name",
+    "Fontname",
+    "Fontsize",
+    "PrimaryColour",
+    "SecondaryColour",
+    "OutlineColour",
+    "BackColour",
+    "Bold",
+    "Italic",
+    "Underline",
+    "StrikeOut",
+    "ScaleX",
+    "ScaleY",
+    "Spacing",
+    "Angle",
+    "BorderStyle",
+    "Outline",
+    "Shadow",
+    "Alignment",
+    "MarginL",
+    "MarginR",
+    "MarginV",
+    "Encoding",
+];
+
+/// One style line of the document
+#[derive(Debug, Clone)]
+pub(crate) struct StyleLine {
+    /// Offset of the first character of the line
+    pub start: usize,
+    /// Offset after the last character of the line, without the line break
+    pub end: usize,
+    head: String,
+    columns: Vec<String>,
+    values: Vec<String>,
+}
+
+impl StyleLine {
+    /// The name of the style, if the line has one
+    pub fn name(&self) -> Option<&str> {
+        self.index_of("Name").map(|index| self.values[index].trim())
+    }
+
+    /// The whole line with the values of some columns changed
+    pub fn with(&self, changes: &[(&str, &str)]) -> Result<String> {
+        let mut values = self.values.clone();
+        for (column, value) in changes {
+            let index = self.index_of(column).ok_or_else(|| {
+                EditorError::command_failed(format!("Style has no {column} column"))
+            })?;
+            if value.contains([',', '\n', '\r']) {
+                return Err(EditorError::command_failed(
+                    "Value does not fit in its column",
+                ));
+            }
+            values[index] = (*value).to_string();
+        }
+        Ok(format!("{}{}", self.head, values.join(",")))
+    }
+
+    fn index_of(&self, column: &str) -> Option<usize> {
+        self.columns
+            .iter()
+            .position(|name| name.eq_ignore_ascii_case(column))
+            .filter(|&index| index < self.values.len())
+    }
+}
+
+/// Columns of the entries at the start of a styles section
+pub(crate) fn columns_of(section: &SectionText, content: &str) -> Vec<String> {
+    section
+        .lines(content)
+        .find_map(|line| line.text.strip_prefix("Format:"))
+        .map_or_else(default_columns, split_format)
+}
+
+fn default_columns() -> Vec<String> {
+    DEFAULT_COLUMNS.iter().map(ToString::to_string).collect()
+}
+
+fn split_format(format: &str) -> Vec<String> {
+    format
+        .split(',')
+        .map(|column| column.trim().to_string())
+        .collect()
+}
+
+impl EditorDocument {
+    /// All styles of the document in order
+    pub(crate) fn style_lines(&self) -> Vec<StyleLine> {
+        let content = self.text();
+        let mut styles = Vec::new();
+        for section in SectionText::all(&content) {
+            if !section.holds_styles() {
+                continue;
+            }
+            let mut columns = default_columns();
+            for line in section.lines(&content) {
+                if let Some(format) = line.text.strip_prefix("Format:") {
+                    columns = split_format(format);
+                    continue;
+                }
+                let Some(data) = line.text.strip_prefix("Style:") else {
+                    continue;
+                };
+                let mut data = data.trim_start();
+                if data.starts_with('*') {
+                    data = data.split_once(',').map_or(data, |(_, rest)| rest);
+                }
+                styles.push(StyleLine {
+                    start: line.start,
+                    end: line.end,
+                    head: line.text[..line.text.len() - data.len()].to_string(),
+                    values: data.split(',').map(ToString::to_string).collect(),
+                    columns: columns.clone(),
+                });
+            }
+        }
+        styles
+    }
+
+    /// The first style with a name
+    pub(crate) fn style_line(&self, name: &str) -> Option<StyleLine> {
+        let name = name.trim();
+        self.style_lines()
+            .into_iter()
+            .find(|style| style.name() == Some(name))
+    }
+}
-- 
2.43.0


From 9dd5bfe6c39349a39339eb73d140706268b3a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 62/94] fix: script info commands act on the field of that
 exact name

A field was found by its name and a colon anywhere, in comments, in longer names and in
values. Setting a new field could not be undone and was glued to a header at the end of the
text, and editing an event's text changed the first match outside the events.
---
 .../commands/script_info_commands/delete.rs   | 53 +++++--------
 .../commands/script_info_commands/get.rs      | 74 +++++--------------
 .../commands/script_info_commands/set.rs      | 74 ++++---------------
 crates/ass-editor/core/document/ass_api.rs    | 36 +++------
 4 files changed, 61 insertions(+), 176 deletions(-)

diff --git a/crates/ass-editor/commands/script_info_commands/delete.rs b/crates/ass-editor/commands/script_info_commands/delete.rs
index a186915..29c0636 100644
--- a/crates/ass-editor/commands/script_info_commands/delete.rs
+++ b/crates/ass-editor/commands/script_info_commands/delete.rs
@@ -1,13 +1,11 @@
 //! Command to remove a property from the `[Script Info]` section.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::document::{key_and_value, whole_line, SectionText};
+use crate::core::{EditorDocument, EditorError, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to delete a script info property from the ASS document
 ///
@@ -28,40 +26,25 @@ impl DeleteScriptInfoCommand {
 
 impl EditorCommand for DeleteScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
+        let content = document.text();
+        let section = SectionText::find(&content, &["Script Info"])
             .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
 
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let absolute_pos = script_info_start + prop_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos + 1) // Include newline
-                .unwrap_or(content.len());
+        let property = self.property.trim();
+        let found: Vec<Range> = section
+            .lines(&content)
+            .filter(|line| key_and_value(line.text).is_some_and(|(key, _)| key == property))
+            .map(|line| whole_line(&content, line.start, line.end))
+            .collect();
 
-            let range = Range::new(Position::new(absolute_pos), Position::new(line_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
+        // The last line first, so that the others stay in place
+        for range in found.iter().rev() {
+            document.delete(*range)?;
         }
+
+        Ok(found.first().map_or_else(CommandResult::success, |first| {
+            CommandResult::success_with_change(Range::new(first.start, first.start), first.start)
+        }))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/script_info_commands/get.rs b/crates/ass-editor/commands/script_info_commands/get.rs
index 2cfb007..5c6b933 100644
--- a/crates/ass-editor/commands/script_info_commands/get.rs
+++ b/crates/ass-editor/commands/script_info_commands/get.rs
@@ -1,10 +1,10 @@
 //! Read commands for retrieving `[Script Info]` properties.
 
+use crate::core::document::{key_and_value, SectionText};
 use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -28,34 +28,16 @@ impl GetScriptInfoCommand {
     /// Execute and return the property value
     pub fn get_value(&self, document: &EditorDocument) -> Result<Option<String>> {
         let content = document.text();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
+        let section = SectionText::find(&content, &["Script Info"])
             .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
 
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let value_start = prop_pos + property_pattern.len();
-            let value_end = search_range[value_start..]
-                .find('\n')
-                .map(|pos| value_start + pos)
-                .unwrap_or(search_range.len());
-
-            let value = search_range[value_start..value_end].trim().to_string();
-            Ok(Some(value))
-        } else {
-            Ok(None)
-        }
+        let property = self.property.trim();
+        let value = section
+            .lines(&content)
+            .filter_map(|line| key_and_value(line.text))
+            .find(|(key, _)| *key == property)
+            .map(|(_, value)| value.to_string());
+        Ok(value)
     }
 }
 
@@ -75,35 +57,15 @@ impl GetAllScriptInfoCommand {
     /// Execute and return all properties as key-value pairs
     pub fn get_all(&self, document: &EditorDocument) -> Result<Vec<(String, String)>> {
         let content = document.text();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        let search_range = &content[script_info_start..script_info_end];
-        let mut properties = Vec::new();
-
-        for line in search_range.lines() {
-            // Skip the section header and empty lines
-            if line.starts_with('[') || line.trim().is_empty() {
-                continue;
-            }
-
-            // Parse property: value pairs
-            if let Some(colon_pos) = line.find(':') {
-                let property = line[..colon_pos].trim().to_string();
-                let value = line[colon_pos + 1..].trim().to_string();
-                properties.push((property, value));
-            }
-        }
-
+        let Some(section) = SectionText::find(&content, &["Script Info"]) else {
+            return Ok(Vec::new());
+        };
+
+        let properties = section
+            .lines(&content)
+            .filter_map(|line| key_and_value(line.text))
+            .map(|(key, value)| (key.to_string(), value.to_string()))
+            .collect();
         Ok(properties)
     }
 }
diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index 04c1de9..5ec009c 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -1,13 +1,10 @@
 //! Command to set or update a property in the `[Script Info]` section.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::{format, string::String};
 
 /// Command to set a script info property in the ASS document
 ///
@@ -30,62 +27,17 @@ impl SetScriptInfoCommand {
 
 impl EditorCommand for SetScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section (next section or end of file)
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Check if property already exists
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            // Property exists, update it
-            let absolute_pos = script_info_start + prop_pos;
-            let line_start = absolute_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(content.len());
-
-            let new_line = format!("{}: {}", self.property, self.value);
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            document.replace(range, &new_line)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(
-                    Position::new(line_start),
-                    Position::new(line_start + new_line.len()),
-                ),
-                Position::new(line_start + new_line.len()),
-            ))
-        } else {
-            // Property doesn't exist, add it after [Script Info]
-            let insert_pos = content[script_info_start..]
-                .find('\n')
-                .map(|pos| script_info_start + pos + 1)
-                .unwrap_or(script_info_start + 13); // Length of "[Script Info]"
-
-            let new_line = format!("{}: {}\n", self.property, self.value);
-            document.insert_raw(Position::new(insert_pos), &new_line)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(
-                    Position::new(insert_pos),
-                    Position::new(insert_pos + new_line.len()),
-                ),
-                Position::new(insert_pos + new_line.len()),
-            ))
-        }
+        let range = match document.write_script_info(&self.property, &self.value)? {
+            Some(range) => range,
+            // There is no section yet, start the document with one
+            None => {
+                let section = format!("[Script Info]\n{}: {}\n", self.property, self.value);
+                let content = document.text();
+                let start = content.len() - content.trim_start_matches('\u{feff}').len();
+                document.insert_line(start, &section)?
+            }
+        };
+        Ok(CommandResult::success_with_change(range, range.end))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index 96901d8..89ab3c1 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -11,7 +11,6 @@ use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -104,14 +103,17 @@ impl EditorDocument {
 
     /// Edit an event by finding and replacing text (simplified ASS-aware editing)
     pub fn edit_event_text(&mut self, old_text: &str, new_text: &str) -> Result<()> {
-        let content = self.text();
-
-        if let Some(pos) = content.find(old_text) {
-            let range = Range::new(Position::new(pos), Position::new(pos + old_text.len()));
-            self.replace(range, new_text)?;
-        }
-
-        Ok(())
+        let lines = self.event_lines().unwrap_or_default();
+        let found = lines
+            .iter()
+            .find(|line| line.get("Text").contains(old_text));
+        let Some(line) = found else {
+            return Ok(());
+        };
+        let edited = line.get("Text").replacen(old_text, new_text, 1);
+        let new_line = line.with(&[("Text", &edited)])?;
+        let range = Range::new(Position::new(line.start), Position::new(line.end));
+        self.replace(range, &new_line)
     }
 
     /// Get script info field value by key
@@ -132,21 +134,7 @@ impl EditorDocument {
 
     /// Set script info field (ASS-aware editing)
     pub fn set_script_info_field(&mut self, key: &str, value: &str) -> Result<()> {
-        // Simplified implementation - find and replace the field
-        let content = self.text();
-        let field_pattern = format!("{key}:");
-
-        if let Some(pos) = content.find(&field_pattern) {
-            // Find end of line
-            let line_start = pos;
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            let new_line = format!("{key}: {value}");
-            self.replace(range, &new_line)?;
-        }
-
+        self.write_script_info(key, value)?;
         Ok(())
     }
 }
-- 
2.43.0


From c69a7796a2e5c33a8b8b72e779b1434c9b0c5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 63/94] fix: tag commands touch only the tags they are asked
 for

A tag is matched by its name, not by what its name starts with. Comments and
all else in a block stay as written, a brace that is not closed is text, a
pattern that is not a tag matches nothing, wrapping checks its range first,
and tags are parsed with their offset in the document.
---
 crates/ass-editor/commands/mod.rs             |   1 +
 crates/ass-editor/commands/override_blocks.rs | 106 ++++++++++++++++++
 .../ass-editor/commands/tag_commands/parse.rs |  54 +++------
 .../commands/tag_commands/remove.rs           | 100 ++++++-----------
 .../commands/tag_commands/replace.rs          | 101 +++++------------
 .../ass-editor/commands/tag_commands/wrap.rs  |  41 +++----
 6 files changed, 199 insertions(+), 204 deletions(-)
 create mode 100644 crates/ass-editor/commands/override_blocks.rs

diff --git a/crates/ass-editor/commands/mod.rs b/crates/ass-editor/commands/mod.rs
index 08f02d0..8bb7795 100644
--- a/crates/ass-editor/commands/mod.rs
+++ b/crates/ass-editor/commands/mod.rs
@@ -17,6 +17,7 @@ mod batch_command;
 mod command_result;
 mod command_trait;
 mod fluent_builder;
+mod override_blocks;
 mod text_commands;
 
 #[cfg(test)]
diff --git a/crates/ass-editor/commands/override_blocks.rs b/crates/ass-editor/commands/override_blocks.rs
new file mode 100644
index 0000000..ced949f
--- /dev/null
+++ b/crates/ass-editor/commands/override_blocks.rs
@@ -0,0 +1,106 @@
+//! Override blocks in a stretch of text, shared by the tag and karaoke commands.
+
+use ass_core::analysis::events::tags::{parse_override_block, OverrideTag};
+
+#[cfg(not(feature = "std"))]
+use alloc::{string::String, vec::Vec};
+
+/// A stretch of text, cut at its override blocks
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(super) enum Piece<'a> {
+    /// Text outside of override blocks
+    Text(&'a str),
+    /// Content of an override block, without its braces
+    Block(&'a str),
+    /// From a brace that is not closed on its line to the end of that line
+    Unclosed(&'a str),
+}
+
+/// Cut text at its override blocks
+///
+/// Braces nest, and a block ends on the line it starts on. Together with the braces of the
+/// blocks, the pieces are the text.
+pub(super) fn pieces(text: &str) -> Vec<Piece<'_>> {
+    let mut pieces = Vec::new();
+    let mut rest = text;
+    while let Some(open) = rest.find('{') {
+        if open > 0 {
+            pieces.push(Piece::Text(&rest[..open]));
+        }
+        let tail = &rest[open..];
+        let line = &tail[..tail.find(['\n', '\r']).unwrap_or(tail.len())];
+        let mut depth = 0_usize;
+        let close = line.bytes().position(|byte| {
+            match byte {
+                b'{' => depth += 1,
+                b'}' => depth -= 1,
+                _ => {}
+            }
+            depth == 0
+        });
+        if let Some(close) = close {
+            pieces.push(Piece::Block(&line[1..close]));
+            rest = &tail[close + 1..];
+        } else {
+            pieces.push(Piece::Unclosed(line));
+            rest = &tail[line.len()..];
+        }
+    }
+    if !rest.is_empty() {
+        pieces.push(Piece::Text(rest));
+    }
+    pieces
+}
+
+/// Tags of a block, in the order they are written
+pub(super) fn tags_of(content: &str) -> Vec<OverrideTag<'_>> {
+    let mut tags = Vec::new();
+    let mut diagnostics = Vec::new();
+    parse_override_block(content, 0, &mut tags, &mut diagnostics);
+    tags
+}
+
+/// Offset of the end of a tag in the block it was read from
+pub(super) fn end_of(tag: &OverrideTag<'_>) -> usize {
+    tag.position() + 1 + tag.name().len() + tag.args().len()
+}
+
+/// Name and start of the arguments of the tags to look for
+#[derive(Debug, Clone, Copy)]
+pub(super) struct TagPattern<'a> {
+    name: &'a str,
+    args: &'a str,
+}
+
+impl<'a> TagPattern<'a> {
+    /// Read a pattern such as `\b`, `\b1` or `\pos(`; `None` if it is not one tag
+    pub(super) fn new(pattern: &'a str) -> Option<Self> {
+        match tags_of(pattern).as_slice() {
+            [tag] if tag.position() == 0 && end_of(tag) == pattern.len() => Some(Self {
+                name: tag.name(),
+                args: tag.args(),
+            }),
+            _ => None,
+        }
+    }
+
+    /// What follows the pattern in a tag, if the tag is one to look for
+    pub(super) fn rest_of<'t>(&self, tag: &OverrideTag<'t>) -> Option<&'t str> {
+        if tag.name() == self.name {
+            tag.args().strip_prefix(self.args)
+        } else {
+            None
+        }
+    }
+}
+
+/// Text without its override blocks
+pub(super) fn without_blocks(text: &str) -> String {
+    pieces(text)
+        .into_iter()
+        .filter_map(|piece| match piece {
+            Piece::Text(text) | Piece::Unclosed(text) => Some(text),
+            Piece::Block(_) => None,
+        })
+        .collect()
+}
diff --git a/crates/ass-editor/commands/tag_commands/parse.rs b/crates/ass-editor/commands/tag_commands/parse.rs
index 3494f0b..53f2730 100644
--- a/crates/ass-editor/commands/tag_commands/parse.rs
+++ b/crates/ass-editor/commands/tag_commands/parse.rs
@@ -3,6 +3,7 @@
 //! Provides [`ParseTagCommand`] for extracting override tags from a range into
 //! [`ParsedTag`] records, optionally including their positions.
 
+use crate::commands::override_blocks::{pieces, tags_of, Piece};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -71,53 +72,30 @@ impl ParseTagCommand {
     /// Parse tags from text content
     pub fn parse_tags_from_text(&self, text: &str) -> Result<Vec<ParsedTag>> {
         let mut tags = Vec::new();
-        let mut chars = text.chars().enumerate().peekable();
-
-        while let Some((pos, ch)) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-                let start_pos = pos;
-
-                while let Some((_, inner_ch)) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
-                }
+        let mut offset = 0;
 
-                // Parse tags from override content
-                let mut override_tags =
-                    self.extract_tags_from_override(&override_content, start_pos)?;
-                tags.append(&mut override_tags);
-            }
+        for piece in pieces(text) {
+            let (content, length) = match piece {
+                Piece::Text(text) => {
+                    offset += text.len();
+                    continue;
+                }
+                Piece::Block(content) => (content, content.len() + 2),
+                Piece::Unclosed(line) => (&line[1..], line.len()),
+            };
+            tags.extend(self.extract_tags_from_override(content, offset + 1));
+            offset += length;
         }
 
         Ok(tags)
     }
 
     /// Extract individual tags from override block content using ass-core's parser
-    fn extract_tags_from_override(
-        &self,
-        content: &str,
-        base_position: usize,
-    ) -> Result<Vec<ParsedTag>> {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        let mut core_tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut core_tags, &mut diagnostics);
-
+    fn extract_tags_from_override(&self, content: &str, base_position: usize) -> Vec<ParsedTag> {
         let mut tags = Vec::new();
 
         // Convert ass-core tags to ParsedTag format
-        for core_tag in &core_tags {
+        for core_tag in tags_of(content) {
             let args = core_tag.args();
 
             // Parse parameters and determine tag format based on argument structure
@@ -152,6 +130,6 @@ impl ParseTagCommand {
             });
         }
 
-        Ok(tags)
+        tags
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index be7a97a..5e66a57 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -4,11 +4,12 @@
 //! matching a specific pattern, from a range, optionally cleaning up empty
 //! override brackets.
 
+use crate::commands::override_blocks::{end_of, pieces, tags_of, Piece, TagPattern};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::String, vec::Vec};
+use alloc::string::{String, ToString};
 
 /// Remove ASS override tags from specified range
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -49,7 +50,7 @@ impl RemoveTagCommand {
 impl EditorCommand for RemoveTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.range)?;
-        let cleaned_text = self.remove_tags_from_text(&original_text)?;
+        let cleaned_text = self.remove_tags_from_text(&original_text);
 
         document.replace_raw(self.range, &cleaned_text)?;
 
@@ -73,79 +74,44 @@ impl EditorCommand for RemoveTagCommand {
 
 impl RemoveTagCommand {
     /// Remove tags from text content
-    fn remove_tags_from_text(&self, text: &str) -> Result<String> {
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - process it
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
+    fn remove_tags_from_text(&self, text: &str) -> String {
+        let mut result = String::with_capacity(text.len());
+        for piece in pieces(text) {
+            match piece {
+                Piece::Text(text) | Piece::Unclosed(text) => result.push_str(text),
+                Piece::Block(content) => {
+                    let kept = self.process_override_content(content);
+                    if !kept.trim().is_empty() || !self.clean_empty_overrides {
+                        result.push('{');
+                        result.push_str(&kept);
+                        result.push('}');
                     }
-                    override_content.push(inner_ch);
                 }
-
-                // Process override content
-                let cleaned_override = self.process_override_content(&override_content);
-
-                // Add back if not empty or if we're keeping empty overrides
-                if !cleaned_override.is_empty() || !self.clean_empty_overrides {
-                    result.push('{');
-                    result.push_str(&cleaned_override);
-                    result.push('}');
-                }
-            } else {
-                result.push(ch);
             }
         }
-
-        Ok(result)
+        result
     }
 
-    /// Process content inside override brackets using ass-core's parser
+    /// Content of an override block without the tags to remove
+    ///
+    /// Without a pattern nothing is left; with one, all but the matching tags stays as written.
     fn process_override_content(&self, content: &str) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if let Some(pattern) = &self.tag_pattern {
-            // Remove only specific pattern using ass-core's parser
-            let mut tags = Vec::new();
-            let mut diagnostics = Vec::new();
-            parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-            // Rebuild content without matching tags
-            let mut result = String::new();
-            let mut processed_positions = Vec::new();
-
-            // Process tags from ass-core parser
-            for tag in &tags {
-                let pattern_without_backslash = &pattern[1..]; // Remove leading backslash from pattern
-                if !tag.name().starts_with(pattern_without_backslash) {
-                    // This tag should be kept - track its position
-                    processed_positions.push((tag.position(), tag.name(), tag.args()));
-                }
+        let Some(pattern) = &self.tag_pattern else {
+            return String::new();
+        };
+        let Some(pattern) = TagPattern::new(pattern) else {
+            return content.to_string();
+        };
+
+        let mut result = String::with_capacity(content.len());
+        let mut kept_to = 0;
+        for tag in tags_of(content) {
+            if pattern.rest_of(&tag).is_some() {
+                result.push_str(&content[kept_to..tag.position()]);
+                kept_to = end_of(&tag);
             }
-
-            // Rebuild the override content, keeping only non-matching tags
-            for (_, name, args) in processed_positions {
-                result.push('\\');
-                result.push_str(name);
-                result.push_str(args);
-            }
-
-            result
-        } else {
-            // Remove all tags - return empty string
-            String::new()
         }
+        result.push_str(&content[kept_to..]);
+        result
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/replace.rs b/crates/ass-editor/commands/tag_commands/replace.rs
index ab54b36..2102b52 100644
--- a/crates/ass-editor/commands/tag_commands/replace.rs
+++ b/crates/ass-editor/commands/tag_commands/replace.rs
@@ -3,15 +3,12 @@
 //! Provides [`ReplaceTagCommand`] for finding tags matching a pattern within a
 //! range and replacing them with another tag, either once or for all matches.
 
+use crate::commands::override_blocks::{end_of, pieces, tags_of, Piece, TagPattern};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::string::{String, ToString};
 
 /// Replace ASS override tag with another tag
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -48,7 +45,7 @@ impl ReplaceTagCommand {
 impl EditorCommand for ReplaceTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.range)?;
-        let replaced_text = self.replace_tags_in_text(&original_text)?;
+        let replaced_text = self.replace_tags_in_text(&original_text);
 
         document.replace_raw(self.range, &replaced_text)?;
 
@@ -69,82 +66,36 @@ impl EditorCommand for ReplaceTagCommand {
 
 impl ReplaceTagCommand {
     /// Replace tags in text content
-    fn replace_tags_in_text(&self, text: &str) -> Result<String> {
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
-        let mut replacements_made = 0;
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                result.push(ch);
-                let mut override_content = String::new();
-                let mut brace_count = 1;
+    fn replace_tags_in_text(&self, text: &str) -> String {
+        let Some(pattern) = TagPattern::new(&self.find_pattern) else {
+            return text.to_string();
+        };
 
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            // Process override content before closing
-                            let processed = self.process_override_for_replacement(
-                                &override_content,
-                                &mut replacements_made,
-                            );
-                            result.push_str(&processed);
-                            result.push(inner_ch);
+        let mut result = String::with_capacity(text.len());
+        let mut replacements_made = 0;
+        for piece in pieces(text) {
+            match piece {
+                Piece::Text(text) | Piece::Unclosed(text) => result.push_str(text),
+                Piece::Block(content) => {
+                    result.push('{');
+                    let mut kept_to = 0;
+                    for tag in tags_of(content) {
+                        if !self.replace_all && replacements_made > 0 {
                             break;
                         }
+                        if let Some(suffix) = pattern.rest_of(&tag) {
+                            result.push_str(&content[kept_to..tag.position()]);
+                            result.push_str(&self.replace_with);
+                            result.push_str(suffix);
+                            kept_to = end_of(&tag);
+                            replacements_made += 1;
+                        }
                     }
-                    override_content.push(inner_ch);
+                    result.push_str(&content[kept_to..]);
+                    result.push('}');
                 }
-            } else {
-                result.push(ch);
-            }
-        }
-
-        Ok(result)
-    }
-
-    /// Process override content for tag replacement using ass-core's parser
-    fn process_override_for_replacement(
-        &self,
-        content: &str,
-        replacements_made: &mut usize,
-    ) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if !self.replace_all && *replacements_made > 0 {
-            return content.to_string();
-        }
-
-        let mut tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-        let mut result = String::new();
-
-        // Process tags from ass-core parser
-        for tag in &tags {
-            // Reconstruct the full tag to match against the find pattern
-            let tag_full = format!("\\{}{}", tag.name(), tag.args());
-
-            // Check if this tag matches our find pattern
-            if tag_full.starts_with(&self.find_pattern)
-                && (self.replace_all || *replacements_made == 0)
-            {
-                // Replace the tag - preserve any suffix
-                let suffix = &tag_full[self.find_pattern.len()..];
-                result.push_str(&self.replace_with);
-                result.push_str(suffix);
-                *replacements_made += 1;
-            } else {
-                // Add the original tag back
-                result.push_str(&tag_full);
             }
         }
-
         result
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 9ad050d..2f6613c 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -3,6 +3,7 @@
 //! Provides [`WrapTagCommand`] for surrounding a text range with an opening and
 //! closing override tag, auto-generating a closing tag when none is supplied.
 
+use crate::commands::override_blocks::tags_of;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -57,21 +58,19 @@ impl WrapTagCommand {
         }
 
         // Auto-generate closing tag based on opening tag
-        let tag = self.opening_tag.trim_start_matches('\\');
-
-        if tag.starts_with('b') {
-            "\\b0".to_string()
-        } else if tag.starts_with('i') {
-            "\\i0".to_string()
-        } else if tag.starts_with('u') {
-            "\\u0".to_string()
-        } else if tag.starts_with('s') {
-            "\\s0".to_string()
-        } else if tag.starts_with("c&") || tag.starts_with("1c&") {
-            "\\c".to_string() // Reset to default color
-        } else {
-            "\\r".to_string() // Generic reset
+        let tags = tags_of(&self.opening_tag);
+        let mut closing = String::new();
+        for tag in &tags {
+            match tag.name() {
+                name @ ("b" | "i" | "u" | "s") => closing.push_str(&format!("\\{name}0")),
+                "c" | "1c" => closing.push_str("\\c"), // Reset to default color
+                _ => return "\\r".to_string(),         // Generic reset
+            }
+        }
+        if tags.is_empty() {
+            closing.push_str("\\r");
         }
+        closing
     }
 }
 
@@ -79,17 +78,11 @@ impl EditorCommand for WrapTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let closing_tag = self.get_closing_tag();
 
-        // Insert closing tag first (so positions don't shift)
-        let closing_formatted = format!("{{{closing_tag}}}");
-        document.insert_raw(self.range.end, &closing_formatted)?;
-
-        // Insert opening tag
-        let opening_formatted = format!("{{{}}}", self.opening_tag);
-        document.insert_raw(self.range.start, &opening_formatted)?;
+        let text = document.text_range(self.range)?;
+        let wrapped = format!("{{{}}}{text}{{{closing_tag}}}", self.opening_tag);
+        document.replace_raw(self.range, &wrapped)?;
 
-        let total_length = opening_formatted.len()
-            + (self.range.end.offset - self.range.start.offset)
-            + closing_formatted.len();
+        let total_length = wrapped.len();
         let end_pos = Position::new(self.range.start.offset + total_length);
         let range = Range::new(self.range.start, end_pos);
 
-- 
2.43.0


From a819a4ee81b895fc0063bc654fa1bc3533e1d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 64/94] fix: karaoke commands keep the text and change only
 durations

Durations change in place and in the order of the document, syllables are not
cut inside characters, escapes or blocks, white space is kept as it is, and
templates that give no duration are refused.
---
 .../commands/karaoke_commands/adjust_impl.rs  | 156 ++++++------------
 .../commands/karaoke_commands/apply_impl.rs   | 120 ++++++--------
 .../commands/karaoke_commands/generate.rs     |  46 +++---
 .../commands/karaoke_commands/split.rs        |  45 +++--
 4 files changed, 154 insertions(+), 213 deletions(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index 40086b8..5a76cab 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -1,20 +1,17 @@
 //! Execution and timing-rewrite logic for [`AdjustKaraokeCommand`].
 
 use super::{AdjustKaraokeCommand, TimingAdjustment};
+use crate::commands::override_blocks::{end_of, pieces, tags_of, Piece};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::string::{String, ToString};
 
 impl EditorCommand for AdjustKaraokeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.range)?;
-        let adjusted_text = self.adjust_karaoke_timing(&original_text)?;
+        let adjusted_text = self.adjust_karaoke_timing(&original_text);
 
         document.replace_raw(self.range, &adjusted_text)?;
 
@@ -43,118 +40,61 @@ impl EditorCommand for AdjustKaraokeCommand {
 }
 
 impl AdjustKaraokeCommand {
-    /// Adjust karaoke timing in text using ass-core's ExtensionRegistry system
-    fn adjust_karaoke_timing(&self, text: &str) -> Result<String> {
-        use ass_core::analysis::events::tags::parse_override_block_with_registry;
-        use ass_core::plugin::{tags::karaoke::create_karaoke_handlers, ExtensionRegistry};
-
-        // Create registry with karaoke handlers
-        let mut registry = ExtensionRegistry::new();
-        for handler in create_karaoke_handlers() {
-            registry.register_tag_handler(handler).map_err(|e| {
-                crate::core::errors::EditorError::ValidationError {
-                    message: format!("Failed to register karaoke handler: {e:?}"),
-                }
-            })?;
-        }
-
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
+    /// Adjust karaoke timing in text
+    fn adjust_karaoke_timing(&self, text: &str) -> String {
+        let mut result = String::with_capacity(text.len());
         let mut custom_index = 0;
 
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - extract content
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                for inner_ch in chars.by_ref() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+        for piece in pieces(text) {
+            match piece {
+                Piece::Text(text) | Piece::Unclosed(text) => result.push_str(text),
+                Piece::Block(content) => {
+                    result.push('{');
+                    self.adjust_karaoke_tags(content, &mut custom_index, &mut result);
+                    result.push('}');
                 }
-
-                // Use ass-core's registry-based parser
-                let mut tags = Vec::new();
-                let mut diagnostics = Vec::new();
-                parse_override_block_with_registry(
-                    &override_content,
-                    0,
-                    &mut tags,
-                    &mut diagnostics,
-                    Some(&registry),
-                );
-
-                // Process karaoke tags using ass-core's validated data
-                let processed_content = self.adjust_karaoke_tags_with_registry(
-                    &override_content,
-                    &tags,
-                    &mut custom_index,
-                )?;
-
-                result.push('{');
-                result.push_str(&processed_content);
-                result.push('}');
-            } else {
-                result.push(ch);
             }
         }
 
-        Ok(result)
+        result
     }
 
-    /// Adjust karaoke tags using registry-validated tag information
-    fn adjust_karaoke_tags_with_registry(
-        &self,
-        original_content: &str,
-        tags: &[ass_core::analysis::events::tags::OverrideTag],
-        custom_index: &mut usize,
-    ) -> Result<String> {
-        let mut result = original_content.to_string();
-
-        // Process tags in reverse order to maintain position accuracy
-        for tag in tags.iter().rev() {
-            if tag.name().starts_with('k') {
-                // This tag was validated by ass-core's karaoke handlers
-                let tag_name = tag.name();
-                let args = tag.args();
-
-                // Extract duration from args (ass-core already validated this)
-                let current_duration: u32 = args.trim().parse().unwrap_or(0);
-
-                // Calculate new duration based on adjustment type
-                let new_duration = match &self.adjustment {
-                    TimingAdjustment::Scale(factor) => {
-                        ((current_duration as f32 * factor) as u32).max(1)
-                    }
-                    TimingAdjustment::Offset(offset) => {
-                        ((current_duration as i32 + offset).max(1)) as u32
-                    }
-                    TimingAdjustment::SetAll(duration) => *duration,
-                    TimingAdjustment::Custom(timings) => {
-                        if *custom_index < timings.len() {
-                            let timing = timings[*custom_index];
-                            *custom_index += 1;
-                            timing
-                        } else {
-                            current_duration
-                        }
-                    }
-                };
-
-                // Replace the validated tag with adjusted version
-                let old_tag = format!("\\{tag_name}{current_duration}");
-                let new_tag = format!("\\{tag_name}{new_duration}");
-                result = result.replace(&old_tag, &new_tag);
+    /// Write an override block with its karaoke tags adjusted; all else stays as written
+    fn adjust_karaoke_tags(&self, content: &str, custom_index: &mut usize, result: &mut String) {
+        let mut written_to = 0;
+
+        for tag in tags_of(content) {
+            if !matches!(tag.name(), "k" | "K" | "kf" | "ko" | "kt") {
+                continue;
             }
+            let duration = tag.args().trim();
+            let Ok(current_duration) = duration.parse::<u32>() else {
+                continue;
+            };
+
+            let new_duration = match &self.adjustment {
+                TimingAdjustment::Scale(factor) => {
+                    ((current_duration as f32 * factor) as u32).max(1)
+                }
+                TimingAdjustment::Offset(offset) => {
+                    let moved = i64::from(current_duration) + i64::from(*offset);
+                    u32::try_from(moved.max(1)).unwrap_or(u32::MAX)
+                }
+                TimingAdjustment::SetAll(duration) => *duration,
+                TimingAdjustment::Custom(timings) => {
+                    let timing = timings.get(*custom_index).copied();
+                    *custom_index += 1;
+                    timing.unwrap_or(current_duration)
+                }
+            };
+
+            let args_start = end_of(&tag) - tag.args().len();
+            let start = args_start + (tag.args().len() - tag.args().trim_start().len());
+            result.push_str(&content[written_to..start]);
+            result.push_str(&new_duration.to_string());
+            written_to = start + duration.len();
         }
 
-        Ok(result)
+        result.push_str(&content[written_to..]);
     }
 }
diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index dcf47b5..f10d88f 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -1,15 +1,14 @@
 //! Execution and template-application logic for [`ApplyKaraokeCommand`].
 
 use super::{ApplyKaraokeCommand, KaraokeTemplate, KaraokeType};
+use crate::commands::override_blocks::{pieces, without_blocks, Piece};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec,
-    vec::Vec,
 };
 
 impl EditorCommand for ApplyKaraokeCommand {
@@ -48,21 +47,29 @@ impl EditorCommand for ApplyKaraokeCommand {
 impl ApplyKaraokeCommand {
     /// Apply karaoke template to text
     fn apply_karaoke_template(&self, text: &str, _document: &EditorDocument) -> Result<String> {
+        if pieces(text)
+            .iter()
+            .any(|piece| matches!(piece, Piece::Unclosed(_)))
+        {
+            return Err(EditorError::command_failed(
+                "Cannot apply karaoke to text with an unclosed override block",
+            ));
+        }
+
         // Extract text content from event (skip override blocks for syllable detection)
-        let clean_text = self.extract_clean_text(text);
-        let syllables = self.detect_syllables(&clean_text);
+        let clean_text = without_blocks(text);
 
         match &self.karaoke_template {
             KaraokeTemplate::Equal {
                 syllable_duration,
                 karaoke_type,
-            } => self.apply_equal_timing(&syllables, *syllable_duration, *karaoke_type),
+            } => self.apply_equal_timing(&clean_text, *syllable_duration, *karaoke_type),
             KaraokeTemplate::Beat {
                 beats_per_minute,
                 beats_per_syllable,
                 karaoke_type,
             } => self.apply_beat_timing(
-                &syllables,
+                &clean_text,
                 *beats_per_minute,
                 *beats_per_syllable,
                 *karaoke_type,
@@ -70,7 +77,7 @@ impl ApplyKaraokeCommand {
             KaraokeTemplate::Pattern {
                 durations,
                 karaoke_type,
-            } => self.apply_pattern_timing(&syllables, durations, *karaoke_type),
+            } => self.apply_pattern_timing(&clean_text, durations, *karaoke_type),
             KaraokeTemplate::ImportFrom {
                 source_event_index: _,
             } => {
@@ -80,96 +87,75 @@ impl ApplyKaraokeCommand {
         }
     }
 
-    /// Extract clean text without override blocks
-    fn extract_clean_text(&self, text: &str) -> String {
+    /// Put a karaoke tag before each syllable of clean text, keeping the spaces between them
+    fn time_syllables(
+        text: &str,
+        karaoke_type: KaraokeType,
+        mut duration_of: impl FnMut(usize) -> u32,
+    ) -> String {
+        // For now, treat each word as one syllable
+        // In practice, you'd want more sophisticated syllable detection
+        let tag = karaoke_type.tag_string();
         let mut result = String::new();
-        let mut chars = text.chars();
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Skip override block
-                let mut brace_count = 1;
-                for inner_ch in chars.by_ref() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                }
-            } else {
-                result.push(ch);
+        let mut syllables = 0;
+        let mut in_word = false;
+
+        for ch in text.chars() {
+            if ch.is_whitespace() {
+                in_word = false;
+            } else if !in_word {
+                in_word = true;
+                result.push_str(&format!("{{\\{tag}{}}}", duration_of(syllables)));
+                syllables += 1;
             }
+            result.push(ch);
         }
 
         result
     }
 
-    /// Detect syllables in clean text
-    fn detect_syllables(&self, text: &str) -> Vec<String> {
-        // Simple syllable detection - split on spaces and vowel boundaries
-        text.split_whitespace()
-            .flat_map(|word| {
-                // For now, treat each word as one syllable
-                // In practice, you'd want more sophisticated syllable detection
-                vec![word.to_string()]
-            })
-            .collect()
-    }
-
     /// Apply equal timing to syllables
     fn apply_equal_timing(
         &self,
-        syllables: &[String],
+        text: &str,
         duration: u32,
         karaoke_type: KaraokeType,
     ) -> Result<String> {
-        let tag = karaoke_type.tag_string();
-        let mut result = String::new();
-
-        for (i, syllable) in syllables.iter().enumerate() {
-            if i > 0 {
-                result.push(' '); // Add space between syllables
-            }
-            result.push_str(&format!("{{\\{tag}{duration}}}{syllable}"));
-        }
-
-        Ok(result)
+        Ok(Self::time_syllables(text, karaoke_type, |_| duration))
     }
 
     /// Apply beat-based timing to syllables
     fn apply_beat_timing(
         &self,
-        syllables: &[String],
+        text: &str,
         bpm: u32,
         beats_per_syllable: f32,
         karaoke_type: KaraokeType,
     ) -> Result<String> {
         // Calculate duration in centiseconds: (60 seconds / BPM) * beats_per_syllable * 100 cs/s
-        let duration = ((60.0 / bpm as f32) * beats_per_syllable * 100.0) as u32;
-        self.apply_equal_timing(syllables, duration, karaoke_type)
+        let duration = (60.0 / bpm as f32) * beats_per_syllable * 100.0;
+        if !duration.is_finite() || duration < 0.0 {
+            return Err(EditorError::command_failed(
+                "Beats per minute and beats per syllable must give a duration",
+            ));
+        }
+        self.apply_equal_timing(text, duration as u32, karaoke_type)
     }
 
     /// Apply pattern-based timing to syllables
     fn apply_pattern_timing(
         &self,
-        syllables: &[String],
+        text: &str,
         durations: &[u32],
         karaoke_type: KaraokeType,
     ) -> Result<String> {
-        let tag = karaoke_type.tag_string();
-        let mut result = String::new();
-
-        for (i, syllable) in syllables.iter().enumerate() {
-            if i > 0 {
-                result.push(' ');
-            }
-            let duration = durations.get(i % durations.len()).copied().unwrap_or(50);
-            result.push_str(&format!("{{\\{tag}{duration}}}{syllable}"));
+        if durations.is_empty() {
+            return Err(EditorError::command_failed(
+                "A karaoke pattern needs at least one duration",
+            ));
         }
-
-        Ok(result)
+        Ok(Self::time_syllables(text, karaoke_type, |i| {
+            durations[i % durations.len()]
+        }))
     }
 }
diff --git a/crates/ass-editor/commands/karaoke_commands/generate.rs b/crates/ass-editor/commands/karaoke_commands/generate.rs
index 0d2c583..b46e79b 100644
--- a/crates/ass-editor/commands/karaoke_commands/generate.rs
+++ b/crates/ass-editor/commands/karaoke_commands/generate.rs
@@ -65,40 +65,38 @@ impl GenerateKaraokeCommand {
             return vec![text.to_string()];
         }
 
-        for (i, &ch) in chars.iter().enumerate() {
+        let mut i = 0;
+        while i < chars.len() {
             // Split on spaces and common syllable boundaries
-            if ch.is_whitespace() || (i > 0 && self.is_syllable_boundary(&chars, i)) {
+            if chars[i].is_whitespace() {
                 if current_start < i {
-                    let syllable: String = chars[current_start..i].iter().collect();
-                    if !syllable.trim().is_empty() {
-                        syllables.push(syllable);
-                    }
+                    syllables.push(chars[current_start..i].iter().collect());
                 }
 
-                // Handle whitespace
-                if ch.is_whitespace() {
-                    let mut end = i + 1;
-                    while end < chars.len() && chars[end].is_whitespace() {
-                        end += 1;
-                    }
-                    if end > i + 1 {
-                        let whitespace: String = chars[i..end].iter().collect();
-                        syllables.push(whitespace);
-                        current_start = end;
-                        continue;
-                    }
+                // One space goes with the syllable after it, any others stand alone
+                let mut end = i + 1;
+                while end < chars.len() && chars[end].is_whitespace() {
+                    end += 1;
                 }
-
-                current_start = i;
+                if end > i + 1 || end == chars.len() {
+                    syllables.push(chars[i..end].iter().collect());
+                    current_start = end;
+                } else {
+                    current_start = i;
+                }
+                i = end;
+            } else {
+                if current_start < i && self.is_syllable_boundary(&chars, i) {
+                    syllables.push(chars[current_start..i].iter().collect());
+                    current_start = i;
+                }
+                i += 1;
             }
         }
 
         // Add remaining text
         if current_start < chars.len() {
-            let remaining: String = chars[current_start..].iter().collect();
-            if !remaining.trim().is_empty() {
-                syllables.push(remaining);
-            }
+            syllables.push(chars[current_start..].iter().collect());
         }
 
         // Return syllables or whole text if none found
diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 61b6c94..26518c1 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -1,5 +1,6 @@
 //! Split existing karaoke timing into separate timed segments.
 
+use crate::commands::override_blocks::{pieces, Piece};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -38,7 +39,7 @@ impl SplitKaraokeCommand {
 impl EditorCommand for SplitKaraokeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.range)?;
-        let processed_text = self.split_karaoke_text(&original_text)?;
+        let processed_text = self.split_karaoke_text(&original_text);
 
         document.replace_raw(self.range, &processed_text)?;
 
@@ -59,34 +60,50 @@ impl EditorCommand for SplitKaraokeCommand {
 
 impl SplitKaraokeCommand {
     /// Split karaoke text at specified positions
-    fn split_karaoke_text(&self, text: &str) -> Result<String> {
+    fn split_karaoke_text(&self, text: &str) -> String {
         // For now, return simplified version
         // In practice, this would parse existing karaoke tags and split them
+        let duration = self.new_duration.unwrap_or(50);
         let mut result = String::new();
         let mut last_pos = 0;
 
         for &pos in &self.split_positions {
-            if pos <= last_pos || pos >= text.len() {
+            if pos <= last_pos || !Self::can_split_at(text, pos) {
                 continue;
             }
 
-            let segment = &text[last_pos..pos];
-            if !segment.is_empty() {
-                let duration = self.new_duration.unwrap_or(50);
-                result.push_str(&format!("{{\\k{duration}}}{segment}"));
-            }
+            result.push_str(&format!("{{\\k{duration}}}{}", &text[last_pos..pos]));
             last_pos = pos;
         }
 
         // Add remaining text
         if last_pos < text.len() {
-            let segment = &text[last_pos..];
-            if !segment.is_empty() {
-                let duration = self.new_duration.unwrap_or(50);
-                result.push_str(&format!("{{\\k{duration}}}{segment}"));
-            }
+            result.push_str(&format!("{{\\k{duration}}}{}", &text[last_pos..]));
         }
 
-        Ok(result)
+        result
+    }
+
+    /// Whether an override block put at a position leaves characters, escapes and blocks whole
+    fn can_split_at(text: &str, pos: usize) -> bool {
+        if pos >= text.len() || !text.is_char_boundary(pos) {
+            return false;
+        }
+        if text[..pos].ends_with('\\') && text[pos..].starts_with(['N', 'n', 'h']) {
+            return false;
+        }
+        let mut start = 0;
+        for piece in pieces(text) {
+            let (length, whole) = match piece {
+                Piece::Text(text) => (text.len(), false),
+                Piece::Block(content) => (content.len() + 2, true),
+                Piece::Unclosed(line) => (line.len(), true),
+            };
+            if whole && start < pos && pos < start + length {
+                return false;
+            }
+            start += length;
+        }
+        true
     }
 }
-- 
2.43.0


From 138601e879c32f7f4bbcbe67f544bca9898db5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 65/94] fix: a session is neither replaced by another nor
 dropped while in use

Creating a session under a taken id is refused instead of discarding the
document and miscounting, using a session keeps it from going stale, and
stale sessions are found and removed under one lock.
---
 crates/ass-editor/sessions/access.rs    | 45 ++++++++++++-------------
 crates/ass-editor/sessions/lifecycle.rs | 30 +++++++----------
 crates/ass-editor/sessions/manager.rs   | 14 ++++++++
 3 files changed, 48 insertions(+), 41 deletions(-)

diff --git a/crates/ass-editor/sessions/access.rs b/crates/ass-editor/sessions/access.rs
index 1725a9b..30ef736 100644
--- a/crates/ass-editor/sessions/access.rs
+++ b/crates/ass-editor/sessions/access.rs
@@ -12,7 +12,7 @@ use crate::core::{EditorDocument, EditorError, Result};
 use std::sync::Arc;
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec, vec::Vec};
+use alloc::{string::ToString, vec::Vec};
 
 impl EditorSessionManager {
     /// Execute a function with a read-only reference to a session's document
@@ -20,14 +20,16 @@ impl EditorSessionManager {
     where
         F: FnOnce(&EditorDocument) -> Result<R>,
     {
-        self.with_inner(|inner| {
-            inner
-                .sessions
-                .get(session_id)
-                .ok_or_else(|| EditorError::DocumentNotFound {
+        self.with_inner_mut(|inner| {
+            let session = inner.sessions.get_mut(session_id).ok_or_else(|| {
+                EditorError::DocumentNotFound {
                     id: session_id.to_string(),
-                })
-                .and_then(|session| f(&session.document))
+                }
+            })?;
+            #[cfg(feature = "std")]
+            session.touch();
+
+            f(&session.document)
         })
     }
 
@@ -43,6 +45,9 @@ impl EditorSessionManager {
                 }
             })?;
 
+            #[cfg(feature = "std")]
+            session.touch();
+
             let result = f(&mut session.document)?;
             session.increment_operations();
 
@@ -58,29 +63,23 @@ impl EditorSessionManager {
     /// Perform cleanup of stale sessions
     #[cfg(feature = "std")]
     pub fn cleanup_stale_sessions(&mut self, max_age: std::time::Duration) -> Result<usize> {
-        // Get list of stale sessions
-        let sessions_to_remove = self.with_inner(|inner| {
+        // Find and remove under one lock: a session in use in between is not stale
+        Ok(self.with_inner_mut(|inner| {
             if !inner.config.auto_cleanup {
-                return vec![];
+                return 0;
             }
 
-            inner
+            let stale = inner
                 .sessions
                 .iter()
                 .filter(|(_, session)| session.is_stale(max_age))
                 .map(|(id, _)| id.clone())
-                .collect::<Vec<_>>()
-        });
-
-        // Remove stale sessions
-        let mut removed_count = 0;
-        for session_id in sessions_to_remove {
-            if self.remove_session(&session_id).is_ok() {
-                removed_count += 1;
+                .collect::<Vec<_>>();
+            for session_id in &stale {
+                inner.remove(session_id);
             }
-        }
-
-        Ok(removed_count)
+            stale.len()
+        }))
     }
 
     /// Reset shared arena to reclaim memory
diff --git a/crates/ass-editor/sessions/lifecycle.rs b/crates/ass-editor/sessions/lifecycle.rs
index 25ffc2b..8a78bed 100644
--- a/crates/ass-editor/sessions/lifecycle.rs
+++ b/crates/ass-editor/sessions/lifecycle.rs
@@ -10,6 +10,7 @@ use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
+    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -41,6 +42,12 @@ impl EditorSessionManager {
             }
 
             // Create new session
+            if inner.sessions.contains_key(&session_id) {
+                return Err(EditorError::ValidationError {
+                    message: format!("Session already exists: {session_id}"),
+                });
+            }
+
             let session = EditorSession::new(session_id.clone(), document);
 
             // Add to sessions map
@@ -89,24 +96,11 @@ impl EditorSessionManager {
     /// Remove a session
     pub fn remove_session(&mut self, session_id: &str) -> Result<EditorSession> {
         self.with_inner_mut(|inner| {
-            let session =
-                inner
-                    .sessions
-                    .remove(session_id)
-                    .ok_or_else(|| EditorError::DocumentNotFound {
-                        id: session_id.to_string(),
-                    })?;
-
-            // Update stats
-            inner.stats.active_sessions -= 1;
-            inner.stats.total_memory_usage -= session.memory_usage;
-
-            // Clear active session if it was removed
-            if inner.active_session_id.as_ref() == Some(&session_id.to_string()) {
-                inner.active_session_id = None;
-            }
-
-            Ok(session)
+            inner
+                .remove(session_id)
+                .ok_or_else(|| EditorError::DocumentNotFound {
+                    id: session_id.to_string(),
+                })
         })
     }
 
diff --git a/crates/ass-editor/sessions/manager.rs b/crates/ass-editor/sessions/manager.rs
index 1cb748e..2893e88 100644
--- a/crates/ass-editor/sessions/manager.rs
+++ b/crates/ass-editor/sessions/manager.rs
@@ -131,6 +131,20 @@ impl EditorSessionManagerInner {
             ops_since_arena_reset: 0,
         }
     }
+
+    /// Remove a session, with what the statistics and the active session say of it
+    pub(super) fn remove(&mut self, session_id: &str) -> Option<EditorSession> {
+        let session = self.sessions.remove(session_id)?;
+        self.stats.active_sessions -= 1;
+        self.stats.total_memory_usage -= session.memory_usage;
+
+        // If this was the active session, clear it
+        if self.active_session_id.as_deref() == Some(session_id) {
+            self.active_session_id = None;
+        }
+
+        Some(session)
+    }
 }
 
 impl EditorSessionManager {
-- 
2.43.0


From 636d7f69a7394cad1fd66ba3472d56e45274a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 66/94] fix: every handler is given every event, whatever
 another one answers

---
 crates/ass-editor/events/dispatch.rs | 30 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/crates/ass-editor/events/dispatch.rs b/crates/ass-editor/events/dispatch.rs
index 1ffef90..4cec74f 100644
--- a/crates/ass-editor/events/dispatch.rs
+++ b/crates/ass-editor/events/dispatch.rs
@@ -23,6 +23,7 @@ impl EventChannel {
         self.stats.events_dispatched += 1;
 
         let mut filtered_count = 0;
+        let mut result = Ok(());
         #[cfg(feature = "std")]
         let mut processed_count = 0;
 
@@ -37,7 +38,10 @@ impl EventChannel {
 
             for handler_info in handlers.iter_mut() {
                 if handler_info.filter.matches(&event) {
-                    handler_info.handler.handle_event(&event)?;
+                    if let Err(error) = handler_info.handler.handle_event(&event) {
+                        // The other handlers are still to see the event
+                        result = result.and(Err(error));
+                    }
                     handler_info.events_processed += 1;
                     #[cfg(feature = "std")]
                     {
@@ -55,7 +59,10 @@ impl EventChannel {
 
             for handler_info in handlers.iter_mut() {
                 if handler_info.filter.matches(&event) {
-                    handler_info.handler.handle_event(&event)?;
+                    if let Err(error) = handler_info.handler.handle_event(&event) {
+                        // The other handlers are still to see the event
+                        result = result.and(Err(error));
+                    }
                     handler_info.events_processed += 1;
                     #[cfg(feature = "std")]
                     {
@@ -91,23 +98,18 @@ impl EventChannel {
             );
         }
 
-        Ok(())
+        result
     }
 
     /// Dispatch multiple events in a batch
     pub fn dispatch_batch(&mut self, events: Vec<DocumentEvent>) -> Result<()> {
-        if self.config.enable_batching && events.len() <= self.config.max_batch_size {
-            // Process as a batch
-            for event in events {
-                self.dispatch(event)?;
-            }
-        } else {
-            // Process individually
-            for event in events {
-                self.dispatch(event)?;
-            }
+        // Every event is delivered, whatever a handler made of an earlier one
+        let mut result = Ok(());
+        for event in events {
+            let delivered = self.dispatch(event);
+            result = result.and(delivered);
         }
-        Ok(())
+        result
     }
 
     /// Setup async event processing (requires async feature)
-- 
2.43.0


From c0cb8ee2baa54af6593cee3b62485d1ffeb8d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 67/94] fix: cue times are checked and keep their hours,
 minutes and seconds

---
 crates/ass-editor/formats/cues.rs             | 48 ++++++++++
 crates/ass-editor/formats/mod.rs              |  1 +
 crates/ass-editor/formats/srt/time.rs         | 66 +++-----------
 crates/ass-editor/formats/webvtt/time.rs      | 87 +++----------------
 crates/ass-editor/utils/formats/export_srt.rs | 21 +----
 .../ass-editor/utils/formats/export_webvtt.rs | 21 +----
 crates/ass-editor/utils/formats/import_srt.rs | 46 +++-------
 .../ass-editor/utils/formats/import_webvtt.rs | 47 +++-------
 8 files changed, 93 insertions(+), 244 deletions(-)
 create mode 100644 crates/ass-editor/formats/cues.rs

diff --git a/crates/ass-editor/formats/cues.rs b/crates/ass-editor/formats/cues.rs
new file mode 100644
index 0000000..adea006
--- /dev/null
+++ b/crates/ass-editor/formats/cues.rs
@@ -0,0 +1,48 @@
+//! Cue times and cue text shared by the SRT and WebVTT formats.
+
+use ass_core::utils::{format_ass_time, parse_ass_time};
+
+/// Read a cue time (`HH:MM:SS` or `MM:SS`, then a separator and milliseconds)
+/// as an ASS time, cut to the centisecond.
+///
+/// The hours are optional when `short` is set. Returns `None` for anything
+/// that is not such a time.
+pub(crate) fn cue_time_to_ass(time: &str, separators: &[char], short: bool) -> Option<String> {
+    let (clock, millis) = time.trim().rsplit_once(separators)?;
+    let number = |digits: &str| {
+        digits
+            .bytes()
+            .all(|b| b.is_ascii_digit())
+            .then(|| digits.parse::<u32>().ok())
+            .flatten()
+    };
+    let fields = clock.split(':').map(number).collect::<Option<Vec<_>>>()?;
+    let (hours, minutes, seconds) = match fields[..] {
+        [hours, minutes, seconds] => (hours, minutes, seconds),
+        [minutes, seconds] if short => (0, minutes, seconds),
+        _ => return None,
+    };
+    let millis = number(millis)?;
+    if minutes > 59 || seconds > 59 || millis > 999 {
+        return None;
+    }
+    hours
+        .checked_mul(360_000)?
+        .checked_add(minutes * 6_000 + seconds * 100 + millis / 10)
+        .map(format_ass_time)
+}
+
+/// Write an ASS time as a cue time (`HH:MM:SS`, the separator, milliseconds).
+///
+/// Returns `None` when the time is not a valid ASS time.
+pub(crate) fn ass_time_to_cue(time: &str, separator: char) -> Option<String> {
+    let total = parse_ass_time(time.trim()).ok()?;
+    let (seconds, centis) = (total / 100, total % 100);
+    Some(format!(
+        "{:02}:{:02}:{:02}{separator}{:03}",
+        seconds / 3600,
+        seconds / 60 % 60,
+        seconds % 60,
+        centis * 10
+    ))
+}
diff --git a/crates/ass-editor/formats/mod.rs b/crates/ass-editor/formats/mod.rs
index f32ca6c..9ced8b3 100644
--- a/crates/ass-editor/formats/mod.rs
+++ b/crates/ass-editor/formats/mod.rs
@@ -3,6 +3,7 @@
 //! This module provides traits and implementations for importing and exporting
 //! various subtitle formats, reusing ass-core's parsing capabilities where possible.
 
+pub(crate) mod cues;
 mod registry;
 mod traits;
 mod types;
diff --git a/crates/ass-editor/formats/srt/time.rs b/crates/ass-editor/formats/srt/time.rs
index 089fdb3..3c4eea9 100644
--- a/crates/ass-editor/formats/srt/time.rs
+++ b/crates/ass-editor/formats/srt/time.rs
@@ -2,69 +2,23 @@
 
 use super::SrtFormat;
 use crate::core::EditorError;
+use crate::formats::cues::{ass_time_to_cue, cue_time_to_ass};
 
 impl SrtFormat {
     /// Parse SRT timestamp (HH:MM:SS,mmm)
     pub(super) fn parse_srt_time(time_str: &str) -> Result<String, EditorError> {
-        let time_str = time_str.trim();
-
-        // Convert SRT time format (HH:MM:SS,mmm) to ASS format (H:MM:SS.cc)
-        if let Some(comma_pos) = time_str.find(',') {
-            let (time_part, ms_part) = time_str.split_at(comma_pos);
-            let ms_part = &ms_part[1..]; // Remove comma
-
-            // Parse milliseconds and convert to centiseconds
-            let ms: u32 = ms_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid milliseconds: {ms_part}"))
-            })?;
-            let cs = ms / 10; // Convert to centiseconds
-
-            // Remove leading zero from hours if present for ASS format
-            let time_part = if time_part.starts_with("0") && time_part.len() > 1 {
-                &time_part[1..]
-            } else {
-                time_part
-            };
-
-            Ok(format!("{time_part}.{cs:02}"))
-        } else {
-            Err(EditorError::InvalidFormat(format!(
-                "Invalid SRT time format: {time_str}"
-            )))
-        }
+        cue_time_to_ass(time_str, &[','], false).ok_or_else(|| {
+            EditorError::InvalidFormat(format!("Invalid SRT time format: {}", time_str.trim()))
+        })
     }
 
     /// Convert ASS timestamp to SRT format
     pub(super) fn format_srt_time(ass_time: &str) -> Result<String, EditorError> {
-        let ass_time = ass_time.trim();
-
-        // Convert ASS time format (H:MM:SS.cc) to SRT format (HH:MM:SS,mmm)
-        if let Some(dot_pos) = ass_time.find('.') {
-            let (time_part, cs_part) = ass_time.split_at(dot_pos);
-            let cs_part = &cs_part[1..]; // Remove dot
-
-            // Parse centiseconds and convert to milliseconds
-            let cs: u32 = cs_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
-            })?;
-            let ms = cs * 10; // Convert to milliseconds
-
-            // Ensure hours are zero-padded for SRT format
-            let parts: Vec<&str> = time_part.split(':').collect();
-            if parts.len() == 3 {
-                let hours: u32 = parts[0].parse().map_err(|_| {
-                    EditorError::InvalidFormat(format!("Invalid hours: {}", parts[0]))
-                })?;
-                Ok(format!("{hours:02}:{}:{},{ms:03}", parts[1], parts[2]))
-            } else {
-                Err(EditorError::InvalidFormat(format!(
-                    "Invalid ASS time format: {ass_time}"
-                )))
-            }
-        } else {
-            Err(EditorError::InvalidFormat(format!(
-                "Invalid ASS time format: {ass_time}"
-            )))
-        }
+        Some(ass_time)
+            .filter(|time| time.contains('.'))
+            .and_then(|time| ass_time_to_cue(time, ','))
+            .ok_or_else(|| {
+                EditorError::InvalidFormat(format!("Invalid ASS time format: {}", ass_time.trim()))
+            })
     }
 }
diff --git a/crates/ass-editor/formats/webvtt/time.rs b/crates/ass-editor/formats/webvtt/time.rs
index dae8582..98d5da3 100644
--- a/crates/ass-editor/formats/webvtt/time.rs
+++ b/crates/ass-editor/formats/webvtt/time.rs
@@ -4,92 +4,25 @@
 //! inverse conversion used when exporting.
 
 use crate::core::EditorError;
+use crate::formats::cues::{ass_time_to_cue, cue_time_to_ass};
 
 use super::WebVttFormat;
 
 impl WebVttFormat {
     /// Parse WebVTT timestamp (HH:MM:SS.mmm or MM:SS.mmm)
     pub(super) fn parse_vtt_time(time_str: &str) -> Result<String, EditorError> {
-        let time_str = time_str.trim();
-
-        // WebVTT supports both HH:MM:SS.mmm and MM:SS.mmm formats
-        let parts: Vec<&str> = time_str.split('.').collect();
-        if parts.len() != 2 {
-            return Err(EditorError::InvalidFormat(format!(
-                "Invalid WebVTT time format: {time_str}"
-            )));
-        }
-
-        let time_part = parts[0];
-        let ms_part = parts[1];
-
-        // Parse milliseconds and convert to centiseconds
-        let ms: u32 = ms_part
-            .parse()
-            .map_err(|_| EditorError::InvalidFormat(format!("Invalid milliseconds: {ms_part}")))?;
-        let cs = ms / 10; // Convert to centiseconds
-
-        // Handle both MM:SS and HH:MM:SS formats
-        let time_components: Vec<&str> = time_part.split(':').collect();
-        let ass_time = match time_components.len() {
-            2 => {
-                // MM:SS format - prepend 0 hours
-                format!("0:{time_part}.{cs:02}")
-            }
-            3 => {
-                // HH:MM:SS format - remove leading zero from hours if present
-                let hours = time_components[0];
-                let hours = if hours.starts_with('0') && hours.len() > 1 {
-                    &hours[1..]
-                } else {
-                    hours
-                };
-                format!(
-                    "{hours}:{}:{}.{cs:02}",
-                    time_components[1], time_components[2]
-                )
-            }
-            _ => {
-                return Err(EditorError::InvalidFormat(format!(
-                    "Invalid WebVTT time format: {time_str}"
-                )));
-            }
-        };
-
-        Ok(ass_time)
+        cue_time_to_ass(time_str, &['.'], true).ok_or_else(|| {
+            EditorError::InvalidFormat(format!("Invalid WebVTT time format: {}", time_str.trim()))
+        })
     }
 
     /// Convert ASS timestamp to WebVTT format
     pub(super) fn format_vtt_time(ass_time: &str) -> Result<String, EditorError> {
-        let ass_time = ass_time.trim();
-
-        // Convert ASS time format (H:MM:SS.cc) to WebVTT format (HH:MM:SS.mmm)
-        if let Some(dot_pos) = ass_time.find('.') {
-            let (time_part, cs_part) = ass_time.split_at(dot_pos);
-            let cs_part = &cs_part[1..]; // Remove dot
-
-            // Parse centiseconds and convert to milliseconds
-            let cs: u32 = cs_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
-            })?;
-            let ms = cs * 10; // Convert to milliseconds
-
-            // Ensure hours are zero-padded for WebVTT format
-            let parts: Vec<&str> = time_part.split(':').collect();
-            if parts.len() == 3 {
-                let hours: u32 = parts[0].parse().map_err(|_| {
-                    EditorError::InvalidFormat(format!("Invalid hours: {}", parts[0]))
-                })?;
-                Ok(format!("{hours:02}:{}:{}.{ms:03}", parts[1], parts[2]))
-            } else {
-                Err(EditorError::InvalidFormat(format!(
-                    "Invalid ASS time format: {ass_time}"
-                )))
-            }
-        } else {
-            Err(EditorError::InvalidFormat(format!(
-                "Invalid ASS time format: {ass_time}"
-            )))
-        }
+        Some(ass_time)
+            .filter(|time| time.contains('.'))
+            .and_then(|time| ass_time_to_cue(time, '.'))
+            .ok_or_else(|| {
+                EditorError::InvalidFormat(format!("Invalid ASS time format: {}", ass_time.trim()))
+            })
     }
 }
diff --git a/crates/ass-editor/utils/formats/export_srt.rs b/crates/ass-editor/utils/formats/export_srt.rs
index 145911d..6a3494f 100644
--- a/crates/ass-editor/utils/formats/export_srt.rs
+++ b/crates/ass-editor/utils/formats/export_srt.rs
@@ -6,6 +6,7 @@
 use super::types::ConversionOptions;
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
+use crate::formats::cues::ass_time_to_cue;
 use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
@@ -69,25 +70,7 @@ impl FormatConverter {
 
     /// Convert ASS time to SRT format
     fn ass_time_to_srt(time: &str) -> String {
-        // ASS format: 0:00:00.00
-        // SRT format: 00:00:00,000
-
-        let parts: Vec<&str> = time.split(':').collect();
-        if parts.len() != 3 {
-            return time.to_string();
-        }
-
-        let hours = format!("{:02}", parts[0].parse::<u32>().unwrap_or(0));
-        let minutes = parts[1];
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds = seconds_parts[0];
-        let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
-
-        // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
-
-        format!("{hours}:{minutes}:{seconds},{millis:03}")
+        ass_time_to_cue(time, ',').unwrap_or_else(|| time.to_string())
     }
 
     /// Convert ASS formatting to SRT
diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index a8d1eee..3a5a1d2 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -6,6 +6,7 @@
 use super::types::{ConversionOptions, FormatOptions};
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
+use crate::formats::cues::ass_time_to_cue;
 use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
@@ -84,25 +85,7 @@ impl FormatConverter {
 
     /// Convert ASS time to WebVTT format
     fn ass_time_to_webvtt(time: &str) -> String {
-        // ASS format: 0:00:00.00
-        // WebVTT format: 00:00:00.000
-
-        let parts: Vec<&str> = time.split(':').collect();
-        if parts.len() != 3 {
-            return time.to_string();
-        }
-
-        let hours = format!("{:02}", parts[0].parse::<u32>().unwrap_or(0));
-        let minutes = parts[1];
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds = seconds_parts[0];
-        let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
-
-        // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
-
-        format!("{hours}:{minutes}:{seconds}.{millis:03}")
+        ass_time_to_cue(time, '.').unwrap_or_else(|| time.to_string())
     }
 
     /// Convert ASS formatting to WebVTT
diff --git a/crates/ass-editor/utils/formats/import_srt.rs b/crates/ass-editor/utils/formats/import_srt.rs
index ea8cbe2..107f052 100644
--- a/crates/ass-editor/utils/formats/import_srt.rs
+++ b/crates/ass-editor/utils/formats/import_srt.rs
@@ -6,6 +6,7 @@
 use super::FormatConverter;
 use crate::core::errors::EditorError;
 use crate::core::Result;
+use crate::formats::cues::cue_time_to_ass;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -111,44 +112,17 @@ impl FormatConverter {
 
     /// Parse SRT timestamp to ASS format
     fn parse_srt_time(time: &str) -> Result<String> {
-        // SRT format: 00:00:00,000
-        // ASS format: 0:00:00.00
-
-        let time = time.replace(',', ".");
-        let parts: Vec<&str> = time.split(':').collect();
-
-        if parts.len() != 3 {
-            return Err(EditorError::ValidationError {
-                message: format!("Invalid SRT timestamp: {time}"),
-            });
-        }
-
-        let hours: u32 = parts[0].parse().map_err(|_| EditorError::ValidationError {
-            message: format!("Invalid hours in timestamp: {}", parts[0]),
-        })?;
-
-        let minutes: u32 = parts[1].parse().map_err(|_| EditorError::ValidationError {
-            message: format!("Invalid minutes in timestamp: {}", parts[1]),
-        })?;
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds: u32 = seconds_parts[0]
-            .parse()
-            .map_err(|_| EditorError::ValidationError {
-                message: format!("Invalid seconds in timestamp: {}", seconds_parts[0]),
-            })?;
-
-        let centiseconds = if seconds_parts.len() > 1 {
-            // Convert milliseconds to centiseconds
-            let millis: u32 = seconds_parts[1].parse().unwrap_or(0);
-            millis / 10
+        // A time without a fraction is one on the full second
+        let fraction = if time.contains([',', '.']) {
+            ""
         } else {
-            0
+            ".000"
         };
-
-        Ok(format!(
-            "{hours}:{minutes:02}:{seconds:02}.{centiseconds:02}"
-        ))
+        cue_time_to_ass(&format!("{time}{fraction}"), &[',', '.'], false).ok_or_else(|| {
+            EditorError::ValidationError {
+                message: format!("Invalid SRT timestamp: {time}"),
+            }
+        })
     }
 
     /// Convert SRT formatting to ASS
diff --git a/crates/ass-editor/utils/formats/import_webvtt.rs b/crates/ass-editor/utils/formats/import_webvtt.rs
index 8e91dea..fa1b765 100644
--- a/crates/ass-editor/utils/formats/import_webvtt.rs
+++ b/crates/ass-editor/utils/formats/import_webvtt.rs
@@ -6,6 +6,7 @@
 use super::FormatConverter;
 use crate::core::errors::EditorError;
 use crate::core::Result;
+use crate::formats::cues::cue_time_to_ass;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -105,45 +106,17 @@ impl FormatConverter {
 
     /// Parse WebVTT timestamp to ASS format
     fn parse_webvtt_time(time: &str) -> Result<String> {
-        // WebVTT format: 00:00:00.000 or 00:00.000
-        // ASS format: 0:00:00.00
-
-        let parts: Vec<&str> = time.split(':').collect();
-
-        let (hours, minutes, seconds_str) = if parts.len() == 3 {
-            // HH:MM:SS.mmm
-            (parts[0].parse::<u32>().unwrap_or(0), parts[1], parts[2])
-        } else if parts.len() == 2 {
-            // MM:SS.mmm
-            (0, parts[0], parts[1])
+        // A time without a fraction is one on the full second
+        let fraction = if time.contains([',', '.']) {
+            ""
         } else {
-            return Err(EditorError::ValidationError {
-                message: format!("Invalid WebVTT timestamp: {time}"),
-            });
+            ".000"
         };
-
-        let minutes: u32 = minutes.parse().map_err(|_| EditorError::ValidationError {
-            message: format!("Invalid minutes in timestamp: {minutes}"),
-        })?;
-
-        let seconds_parts: Vec<&str> = seconds_str.split('.').collect();
-        let seconds: u32 = seconds_parts[0]
-            .parse()
-            .map_err(|_| EditorError::ValidationError {
-                message: format!("Invalid seconds in timestamp: {}", seconds_parts[0]),
-            })?;
-
-        let centiseconds = if seconds_parts.len() > 1 {
-            // Convert milliseconds to centiseconds
-            let millis: u32 = seconds_parts[1].parse().unwrap_or(0);
-            millis / 10
-        } else {
-            0
-        };
-
-        Ok(format!(
-            "{hours}:{minutes:02}:{seconds:02}.{centiseconds:02}"
-        ))
+        cue_time_to_ass(&format!("{time}{fraction}"), &[',', '.'], true).ok_or_else(|| {
+            EditorError::ValidationError {
+                message: format!("Invalid WebVTT timestamp: {time}"),
+            }
+        })
     }
 
     /// Convert WebVTT formatting to ASS
-- 
2.43.0


From a693aaef3e3cf485993f20070131f3ed5e55b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 68/94] fix: exported cues keep the styles and lines of the
 event text

---
 crates/ass-editor/formats/markup.rs           | 102 ++++++++++++++++++
 crates/ass-editor/formats/mod.rs              |   1 +
 crates/ass-editor/formats/srt/export.rs       |  45 ++++----
 crates/ass-editor/formats/srt/styling.rs      |  42 ++------
 crates/ass-editor/formats/webvtt/exporter.rs  |  45 ++++----
 crates/ass-editor/formats/webvtt/styling.rs   |  40 ++-----
 crates/ass-editor/utils/formats/export_srt.rs |  34 +-----
 .../ass-editor/utils/formats/export_webvtt.rs |  24 +----
 8 files changed, 165 insertions(+), 168 deletions(-)
 create mode 100644 crates/ass-editor/formats/markup.rs

diff --git a/crates/ass-editor/formats/markup.rs b/crates/ass-editor/formats/markup.rs
new file mode 100644
index 0000000..e8d4328
--- /dev/null
+++ b/crates/ass-editor/formats/markup.rs
@@ -0,0 +1,102 @@
+//! Conversion of event text to the lines and simple markup that cues know.
+
+/// Convert the text of an event to the text of a cue.
+///
+/// `markup` names what stands for an override tag, given its name and
+/// argument; tags it answers `None` for are left out, as are comments and
+/// drawings. Forced and soft line breaks end a line, and lines that hold
+/// nothing are left out since an empty line ends a cue.
+pub(crate) fn event_text_to_cue<F>(text: &str, mut markup: F) -> String
+where
+    F: FnMut(&str, &str) -> Option<String>,
+{
+    let mut cue = String::with_capacity(text.len());
+    let mut drawing = false;
+    let mut rest = text;
+
+    while let Some(c) = rest.chars().next() {
+        if let Some((block, after)) = rest.strip_prefix('{').and_then(|r| r.split_once('}')) {
+            for (name, argument) in override_tags(block) {
+                if name == "p" {
+                    drawing = argument.parse::<u32>().is_ok_and(|scale| scale > 0);
+                } else if let Some(replacement) = markup(name, argument) {
+                    cue.push_str(&replacement);
+                }
+            }
+            rest = after;
+            continue;
+        }
+
+        let (shown, length) = match rest.get(..2) {
+            Some(r"\N" | r"\n") => ('\n', 2),
+            Some(r"\h") => ('\u{a0}', 2),
+            _ => (c, c.len_utf8()),
+        };
+        if !drawing {
+            cue.push(shown);
+        }
+        rest = &rest[length..];
+    }
+
+    cue.lines()
+        .filter(|line| !line.trim().is_empty())
+        .collect::<Vec<_>>()
+        .join("\n")
+}
+
+/// Names and arguments of the override tags of a block, without those inside
+/// the parentheses of others.
+fn override_tags(block: &str) -> Vec<(&str, &str)> {
+    let mut tags = Vec::new();
+    let mut depth = 0usize;
+    let mut start = None;
+
+    for (at, c) in block.char_indices() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            '\\' if depth == 0 => {
+                tags.extend(start.map(|from| &block[from..at]));
+                start = Some(at + 1);
+            }
+            _ => {}
+        }
+    }
+    tags.extend(start.map(|from| &block[from..]));
+
+    tags.into_iter()
+        .map(|tag| {
+            let digits = tag.len() - tag.trim_start_matches(|c: char| c.is_ascii_digit()).len();
+            let name_end = if tag.starts_with("fn") {
+                2
+            } else {
+                tag[digits..]
+                    .find(|c: char| !c.is_ascii_alphabetic())
+                    .map_or(tag.len(), |length| digits + length)
+            };
+            (&tag[..name_end], tag[name_end..].trim())
+        })
+        .collect()
+}
+
+/// Markup of the tags for bold, italic, underlined and, where the format has
+/// it, struck out text.
+pub(crate) fn style_markup(name: &str, argument: &str, strikeout: bool) -> Option<String> {
+    if !(matches!(name, "b" | "i" | "u") || strikeout && name == "s") {
+        return None;
+    }
+    match argument {
+        "1" => Some(format!("<{name}>")),
+        "0" => Some(format!("</{name}>")),
+        _ => None,
+    }
+}
+
+/// Six digits of the colour an argument such as `&HBBGGRR&` names.
+pub(crate) fn colour_digits(argument: &str) -> Option<&str> {
+    let digits = argument
+        .strip_prefix("&H")
+        .or_else(|| argument.strip_prefix("&h"))?
+        .trim_end_matches('&');
+    (digits.len() == 6 && digits.bytes().all(|b| b.is_ascii_hexdigit())).then_some(digits)
+}
diff --git a/crates/ass-editor/formats/mod.rs b/crates/ass-editor/formats/mod.rs
index 9ced8b3..2c820f9 100644
--- a/crates/ass-editor/formats/mod.rs
+++ b/crates/ass-editor/formats/mod.rs
@@ -4,6 +4,7 @@
 //! various subtitle formats, reusing ass-core's parsing capabilities where possible.
 
 pub(crate) mod cues;
+pub(crate) mod markup;
 mod registry;
 mod traits;
 mod types;
diff --git a/crates/ass-editor/formats/srt/export.rs b/crates/ass-editor/formats/srt/export.rs
index 82f4448..82205b5 100644
--- a/crates/ass-editor/formats/srt/export.rs
+++ b/crates/ass-editor/formats/srt/export.rs
@@ -19,24 +19,23 @@ impl FormatExporter for SrtFormat {
         // Parse the ASS content to extract events
         let events = document.parse_script_with(|script| {
             // Find events section and collect owned data
-            if let Some(ass_core::parser::ast::Section::Events(events)) =
-                script.find_section(ass_core::parser::ast::SectionType::Events)
-            {
-                // Convert to owned data to avoid lifetime issues
-                events
-                    .iter()
-                    .map(|event| {
-                        (
-                            event.event_type,
-                            event.start.to_string(),
-                            event.end.to_string(),
-                            event.text.to_string(),
-                        )
-                    })
-                    .collect::<Vec<_>>()
-            } else {
-                Vec::new()
-            }
+            script
+                .sections()
+                .iter()
+                .filter_map(|section| match section {
+                    ass_core::parser::ast::Section::Events(events) => Some(events),
+                    _ => None,
+                })
+                .flatten()
+                .map(|event| {
+                    (
+                        event.event_type,
+                        event.start.to_string(),
+                        event.end.to_string(),
+                        event.text.to_string(),
+                    )
+                })
+                .collect::<Vec<_>>()
         })?;
 
         let mut srt_content = String::new();
@@ -69,14 +68,8 @@ impl FormatExporter for SrtFormat {
             };
 
             // Convert ASS text to SRT format
-            let mut text = text.clone();
-
-            // Convert ASS line breaks to actual line breaks
-            text = text.replace("\\N", "\n");
-            text = text.replace("\\n", "\n");
-
-            // Convert ASS styling to SRT styling
-            text = Self::convert_ass_to_srt_styling(&text);
+            // Convert line breaks and styling to those of SRT
+            let text = Self::convert_ass_to_srt_styling(text);
 
             // Write SRT subtitle entry
             srt_content.push_str(&format!("{subtitle_num}\n"));
diff --git a/crates/ass-editor/formats/srt/styling.rs b/crates/ass-editor/formats/srt/styling.rs
index 9d6e40e..684e3b3 100644
--- a/crates/ass-editor/formats/srt/styling.rs
+++ b/crates/ass-editor/formats/srt/styling.rs
@@ -1,6 +1,7 @@
 //! Conversion between SRT inline styling and ASS override tags.
 
 use super::SrtFormat;
+use crate::formats::markup::{colour_digits, event_text_to_cue, style_markup};
 
 impl SrtFormat {
     /// Convert SRT styling to ASS override tags
@@ -34,38 +35,13 @@ impl SrtFormat {
 
     /// Convert ASS override tags to SRT styling
     pub(super) fn convert_ass_to_srt_styling(text: &str) -> String {
-        let mut result = text.to_string();
-
-        // Convert ASS override tags to HTML-like tags
-        result = result.replace(r"{\b1}", "<b>");
-        result = result.replace(r"{\b0}", "</b>");
-        result = result.replace(r"{\i1}", "<i>");
-        result = result.replace(r"{\i0}", "</i>");
-        result = result.replace(r"{\u1}", "<u>");
-        result = result.replace(r"{\u0}", "</u>");
-        result = result.replace(r"{\s1}", "<s>");
-        result = result.replace(r"{\s0}", "</s>");
-
-        #[cfg(feature = "formats")]
-        {
-            // Handle color tags
-            let color_regex = regex::Regex::new(r"\\c&H([0-9A-Fa-f]{6})&").unwrap();
-            result = color_regex
-                .replace_all(&result, "<font color=\"#$1\">")
-                .to_string();
-            result = result.replace(r"{\c}", "</font>");
-
-            // Handle font name tags
-            let font_regex = regex::Regex::new(r"\\fn([^}]+)").unwrap();
-            result = font_regex
-                .replace_all(&result, "<font face=\"$1\">")
-                .to_string();
-
-            // Remove any remaining ASS tags
-            let cleanup_regex = regex::Regex::new(r"\{[^}]*\}").unwrap();
-            result = cleanup_regex.replace_all(&result, "").to_string();
-        }
-
-        result
+        event_text_to_cue(text, |name, argument| match (name, argument) {
+            ("c" | "1c" | "fn", "") => Some("</font>".to_string()),
+            ("c" | "1c", colour) => {
+                colour_digits(colour).map(|digits| format!("<font color=\"#{digits}\">"))
+            }
+            ("fn", face) => Some(format!("<font face=\"{face}\">")),
+            _ => style_markup(name, argument, true),
+        })
     }
 }
diff --git a/crates/ass-editor/formats/webvtt/exporter.rs b/crates/ass-editor/formats/webvtt/exporter.rs
index 6875850..e44738d 100644
--- a/crates/ass-editor/formats/webvtt/exporter.rs
+++ b/crates/ass-editor/formats/webvtt/exporter.rs
@@ -23,24 +23,23 @@ impl FormatExporter for WebVttFormat {
         // Parse the ASS content to extract events
         let events = document.parse_script_with(|script| {
             // Find events section and collect owned data
-            if let Some(ass_core::parser::ast::Section::Events(events)) =
-                script.find_section(ass_core::parser::ast::SectionType::Events)
-            {
-                // Convert to owned data to avoid lifetime issues
-                events
-                    .iter()
-                    .map(|event| {
-                        (
-                            event.event_type,
-                            event.start.to_string(),
-                            event.end.to_string(),
-                            event.text.to_string(),
-                        )
-                    })
-                    .collect::<Vec<_>>()
-            } else {
-                Vec::new()
-            }
+            script
+                .sections()
+                .iter()
+                .filter_map(|section| match section {
+                    ass_core::parser::ast::Section::Events(events) => Some(events),
+                    _ => None,
+                })
+                .flatten()
+                .map(|event| {
+                    (
+                        event.event_type,
+                        event.start.to_string(),
+                        event.end.to_string(),
+                        event.text.to_string(),
+                    )
+                })
+                .collect::<Vec<_>>()
         })?;
 
         let mut vtt_content = String::new();
@@ -74,14 +73,8 @@ impl FormatExporter for WebVttFormat {
             };
 
             // Convert ASS text to WebVTT format
-            let mut text = text.clone();
-
-            // Convert ASS line breaks to actual line breaks
-            text = text.replace("\\N", "\n");
-            text = text.replace("\\n", "\n");
-
-            // Convert ASS styling to WebVTT styling
-            text = Self::convert_ass_to_vtt_styling(&text);
+            // Convert line breaks and styling to those of WebVTT
+            let text = Self::convert_ass_to_vtt_styling(text);
 
             // Write WebVTT cue
             vtt_content.push_str(&format!("{cue_num}\n"));
diff --git a/crates/ass-editor/formats/webvtt/styling.rs b/crates/ass-editor/formats/webvtt/styling.rs
index 802fc08..aef1921 100644
--- a/crates/ass-editor/formats/webvtt/styling.rs
+++ b/crates/ass-editor/formats/webvtt/styling.rs
@@ -5,6 +5,7 @@
 //! `formats` feature.
 
 use super::WebVttFormat;
+use crate::formats::markup::{colour_digits, event_text_to_cue, style_markup};
 
 impl WebVttFormat {
     /// Convert WebVTT styling to ASS override tags
@@ -47,37 +48,12 @@ impl WebVttFormat {
 
     /// Convert ASS override tags to WebVTT styling
     pub(super) fn convert_ass_to_vtt_styling(text: &str) -> String {
-        let mut result = text.to_string();
-
-        // Convert ASS override tags to WebVTT tags
-        result = result.replace(r"{\b1}", "<b>");
-        result = result.replace(r"{\b0}", "</b>");
-        result = result.replace(r"{\i1}", "<i>");
-        result = result.replace(r"{\i0}", "</i>");
-        result = result.replace(r"{\u1}", "<u>");
-        result = result.replace(r"{\u0}", "</u>");
-
-        #[cfg(feature = "formats")]
-        {
-            // Handle color tags
-            let color_regex = regex::Regex::new(r"\\c&H([0-9A-Fa-f]{6})&").unwrap();
-            result = color_regex.replace_all(&result, r#"<c.$1>"#).to_string();
-            result = result.replace(r"{\c}", "</c>");
-
-            // Handle font name tags
-            let font_regex = regex::Regex::new(r"\\fn([^}]+)").unwrap();
-            result = font_regex.replace_all(&result, r#"<v $1>"#).to_string();
-            result = result.replace(r"{\fn}", "</v>");
-
-            // Handle positioning tags (convert to WebVTT cue settings)
-            let pos_regex = regex::Regex::new(r"\\pos\(([^,]+),([^)]+)\)").unwrap();
-            result = pos_regex.replace_all(&result, "").to_string(); // Will be handled as cue settings
-
-            // Remove any remaining ASS tags
-            let cleanup_regex = regex::Regex::new(r"\{[^}]*\}").unwrap();
-            result = cleanup_regex.replace_all(&result, "").to_string();
-        }
-
-        result
+        event_text_to_cue(text, |name, argument| match (name, argument) {
+            ("c" | "1c", "") => Some("</c>".to_string()),
+            ("c" | "1c", colour) => colour_digits(colour).map(|digits| format!("<c.{digits}>")),
+            ("fn", "") => Some("</v>".to_string()),
+            ("fn", voice) => Some(format!("<v {voice}>")),
+            _ => style_markup(name, argument, false),
+        })
     }
 }
diff --git a/crates/ass-editor/utils/formats/export_srt.rs b/crates/ass-editor/utils/formats/export_srt.rs
index 6a3494f..6bd8327 100644
--- a/crates/ass-editor/utils/formats/export_srt.rs
+++ b/crates/ass-editor/utils/formats/export_srt.rs
@@ -7,6 +7,7 @@ use super::types::ConversionOptions;
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
 use crate::formats::cues::ass_time_to_cue;
+use crate::formats::markup::{event_text_to_cue, style_markup};
 use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
@@ -57,7 +58,7 @@ impl FormatConverter {
                             } else {
                                 Self::convert_ass_to_srt_formatting(event.text)
                             };
-                            output.push_str(&text.replace("\\N", "\n"));
+                            output.push_str(&text);
                             output.push_str("\n\n");
                         }
                     }
@@ -75,38 +76,11 @@ impl FormatConverter {
 
     /// Convert ASS formatting to SRT
     fn convert_ass_to_srt_formatting(text: &str) -> String {
-        let mut result = text.to_string();
-
-        // Convert basic formatting
-        result = result.replace("{\\i1}", "<i>");
-        result = result.replace("{\\i0}", "</i>");
-        result = result.replace("{\\b1}", "<b>");
-        result = result.replace("{\\b0}", "</b>");
-        result = result.replace("{\\u1}", "<u>");
-        result = result.replace("{\\u0}", "</u>");
-
-        // Remove all other ASS tags
-        while let Some(start) = result.find('{') {
-            if let Some(end) = result[start..].find('}') {
-                result.replace_range(start..start + end + 1, "");
-            } else {
-                break;
-            }
-        }
-
-        result
+        event_text_to_cue(text, |name, argument| style_markup(name, argument, false))
     }
 
     /// Strip all ASS tags from text
     pub(super) fn strip_ass_tags(text: &str) -> String {
-        let mut result = text.to_string();
-        while let Some(start) = result.find('{') {
-            if let Some(end) = result[start..].find('}') {
-                result.replace_range(start..start + end + 1, "");
-            } else {
-                break;
-            }
-        }
-        result
+        event_text_to_cue(text, |_, _| None)
     }
 }
diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index 3a5a1d2..113ef9a 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -7,6 +7,7 @@ use super::types::{ConversionOptions, FormatOptions};
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
 use crate::formats::cues::ass_time_to_cue;
+use crate::formats::markup::{event_text_to_cue, style_markup};
 use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
@@ -72,7 +73,7 @@ impl FormatConverter {
                             } else {
                                 Self::convert_ass_to_webvtt_formatting(event.text)
                             };
-                            output.push_str(&text.replace("\\N", "\n"));
+                            output.push_str(&text);
                             output.push_str("\n\n");
                         }
                     }
@@ -90,25 +91,6 @@ impl FormatConverter {
 
     /// Convert ASS formatting to WebVTT
     fn convert_ass_to_webvtt_formatting(text: &str) -> String {
-        let mut result = text.to_string();
-
-        // Convert basic formatting
-        result = result.replace("{\\i1}", "<i>");
-        result = result.replace("{\\i0}", "</i>");
-        result = result.replace("{\\b1}", "<b>");
-        result = result.replace("{\\b0}", "</b>");
-        result = result.replace("{\\u1}", "<u>");
-        result = result.replace("{\\u0}", "</u>");
-
-        // Remove all other ASS tags
-        while let Some(start) = result.find('{') {
-            if let Some(end) = result[start..].find('}') {
-                result.replace_range(start..start + end + 1, "");
-            } else {
-                break;
-            }
-        }
-
-        result
+        event_text_to_cue(text, |name, argument| style_markup(name, argument, false))
     }
 }
-- 
2.43.0


From c2441f66e646d17682a2394502b4572bfecd77aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 69/94] fix: importing SRT and WebVTT neither drops cues nor
 panics

---
 crates/ass-editor/formats/cues.rs             |  5 +++
 crates/ass-editor/formats/srt/import.rs       | 16 ++++++---
 crates/ass-editor/formats/srt/styling.rs      | 35 ++++++++++++++-----
 crates/ass-editor/formats/webvtt/cue.rs       | 20 +++++++----
 crates/ass-editor/formats/webvtt/importer.rs  |  6 +++-
 crates/ass-editor/utils/formats/converter.rs  | 10 ++++--
 crates/ass-editor/utils/formats/import_srt.rs | 14 ++++----
 .../ass-editor/utils/formats/import_webvtt.rs |  9 +++--
 crates/ass-editor/utils/formats/types.rs      |  3 ++
 9 files changed, 84 insertions(+), 34 deletions(-)

diff --git a/crates/ass-editor/formats/cues.rs b/crates/ass-editor/formats/cues.rs
index adea006..c68f59e 100644
--- a/crates/ass-editor/formats/cues.rs
+++ b/crates/ass-editor/formats/cues.rs
@@ -2,6 +2,11 @@
 
 use ass_core::utils::{format_ass_time, parse_ass_time};
 
+/// Text without the byte order mark it may begin with.
+pub(crate) fn without_bom(text: &str) -> &str {
+    text.strip_prefix('\u{feff}').unwrap_or(text)
+}
+
 /// Read a cue time (`HH:MM:SS` or `MM:SS`, then a separator and milliseconds)
 /// as an ASS time, cut to the centisecond.
 ///
diff --git a/crates/ass-editor/formats/srt/import.rs b/crates/ass-editor/formats/srt/import.rs
index 3b1b145..d73b0e8 100644
--- a/crates/ass-editor/formats/srt/import.rs
+++ b/crates/ass-editor/formats/srt/import.rs
@@ -2,6 +2,7 @@
 
 use super::SrtFormat;
 use crate::core::{EditorDocument, EditorError};
+use crate::formats::cues::without_bom;
 use crate::formats::{FormatImporter, FormatInfo, FormatOptions, FormatResult};
 use ass_core::parser::Script;
 use std::io::Read;
@@ -57,15 +58,16 @@ impl SrtFormat {
         }
 
         let start_time = Self::parse_srt_time(parts[0])?;
-        let end_time = Self::parse_srt_time(parts[1])?;
+        // Coordinates may follow the end time
+        let end_time =
+            Self::parse_srt_time(parts[1].split_whitespace().next().unwrap_or_default())?;
 
         idx += 1;
 
         // Collect subtitle text lines
         let mut text_lines = Vec::new();
         while idx < lines.len() && !lines[idx].trim().is_empty() {
-            let styled_text = Self::convert_srt_to_ass_styling(&lines[idx]);
-            text_lines.push(styled_text);
+            text_lines.push(lines[idx].as_str());
             idx += 1;
         }
 
@@ -75,7 +77,8 @@ impl SrtFormat {
             ));
         }
 
-        let text = text_lines.join("\\N"); // ASS line break
+        // Styling may begin on one line and end on another
+        let text = Self::convert_srt_to_ass_styling(&text_lines.join("\\N")); // ASS line break
         let dialogue_line = format!("Dialogue: 0,{start_time},{end_time},Default,,0,0,0,,{text}");
 
         Ok((idx, dialogue_line))
@@ -98,7 +101,10 @@ impl FormatImporter for SrtFormat {
             .read_to_string(&mut content)
             .map_err(|e| EditorError::IoError(format!("Failed to read SRT content: {e}")))?;
 
-        let lines: Vec<String> = content.lines().map(|s| s.to_string()).collect();
+        let lines: Vec<String> = without_bom(&content)
+            .lines()
+            .map(|s| s.to_string())
+            .collect();
         let mut warnings = Vec::new();
         let mut dialogues = Vec::new();
         let mut idx = 0;
diff --git a/crates/ass-editor/formats/srt/styling.rs b/crates/ass-editor/formats/srt/styling.rs
index 684e3b3..e1c7fbb 100644
--- a/crates/ass-editor/formats/srt/styling.rs
+++ b/crates/ass-editor/formats/srt/styling.rs
@@ -20,14 +20,33 @@ impl SrtFormat {
 
         #[cfg(feature = "formats")]
         {
-            // Handle font color tags
-            let color_regex = regex::Regex::new(r#"<font color="?#?([0-9A-Fa-f]{6})"?>"#).unwrap();
-            result = color_regex.replace_all(&result, r"{\c&H$1&}").to_string();
-            result = result.replace("</font>", r"{\c}");
-
-            // Handle font face tags
-            let font_regex = regex::Regex::new(r#"<font face="([^"]+)">"#).unwrap();
-            result = font_regex.replace_all(&result, r"{\fn$1}").to_string();
+            // Handle font tags; each end tag ends what its start tag set
+            let tag = regex::Regex::new(r"<font\b([^>]*)>|</font>").unwrap();
+            let colour = regex::Regex::new(r#"\bcolor="?#?([0-9A-Fa-f]{6})\b"?"#).unwrap();
+            let face = regex::Regex::new(r#"\bface="([^"]+)""#).unwrap();
+            let mut open = Vec::new();
+            result = tag
+                .replace_all(&result, |found: &regex::Captures| {
+                    let Some(attributes) = found.get(1).map(|m| m.as_str()) else {
+                        return open.pop().unwrap_or_else(|| r"{\c}".to_string());
+                    };
+                    let (mut set, mut reset) = (String::new(), String::new());
+                    if let Some(value) = colour.captures(attributes) {
+                        set.push_str(&format!(r"\c&H{}&", &value[1]));
+                        reset.push_str(r"\c");
+                    }
+                    if let Some(value) = face.captures(attributes) {
+                        set.push_str(&format!(r"\fn{}", &value[1]));
+                        reset.push_str(r"\fn");
+                    }
+                    if set.is_empty() {
+                        open.push(String::new());
+                        return String::new();
+                    }
+                    open.push(format!("{{{reset}}}"));
+                    format!("{{{set}}}")
+                })
+                .to_string();
         }
 
         result
diff --git a/crates/ass-editor/formats/webvtt/cue.rs b/crates/ass-editor/formats/webvtt/cue.rs
index f283d7d..c853329 100644
--- a/crates/ass-editor/formats/webvtt/cue.rs
+++ b/crates/ass-editor/formats/webvtt/cue.rs
@@ -31,9 +31,15 @@ impl WebVttFormat {
         // Handle position settings
         if let (Some(line), Some(position)) = (settings.get("line"), settings.get("position")) {
             // Convert WebVTT positioning to approximate ASS positioning
-            if let (Ok(line_val), Ok(pos_val)) = (line.parse::<f32>(), position.parse::<f32>()) {
-                let x = (pos_val * 640.0) as u32; // Assume 640x480 resolution
-                let y = (line_val * 480.0) as u32;
+            let fraction = |percentage: &str| {
+                percentage
+                    .strip_suffix('%')
+                    .and_then(|number| number.parse::<f32>().ok())
+                    .map(|number| number / 100.0)
+            };
+            if let (Some(line_val), Some(pos_val)) = (fraction(line), fraction(position)) {
+                let x = (pos_val * 640.0).round() as u32; // Assume 640x480 resolution
+                let y = (line_val * 480.0).round() as u32;
                 ass_tags.push_str(&format!(r"\pos({x},{y})"));
             }
         }
@@ -100,7 +106,7 @@ impl WebVttFormat {
 
             let start_time = Self::parse_vtt_time(parts[0])?;
             let end_time_and_settings: Vec<&str> = parts[1].split_whitespace().collect();
-            let end_time = Self::parse_vtt_time(end_time_and_settings[0])?;
+            let end_time = Self::parse_vtt_time(end_time_and_settings.first().unwrap_or(&""))?;
 
             // Parse cue settings if present
             let cue_settings = if end_time_and_settings.len() > 1 {
@@ -115,8 +121,7 @@ impl WebVttFormat {
             // Collect cue text
             let mut text_lines = Vec::new();
             while idx < lines.len() && !lines[idx].trim().is_empty() {
-                let styled_text = Self::convert_vtt_to_ass_styling(&lines[idx]);
-                text_lines.push(styled_text);
+                text_lines.push(lines[idx].as_str());
                 idx += 1;
             }
 
@@ -124,7 +129,8 @@ impl WebVttFormat {
                 return Err(EditorError::InvalidFormat("Empty cue text".to_string()));
             }
 
-            let text = text_lines.join("\\N"); // ASS line break
+            // Styling may begin on one line and end on another
+            let text = Self::convert_vtt_to_ass_styling(&text_lines.join("\\N")); // ASS line break
             let positioning = Self::cue_settings_to_ass_positioning(&cue_settings);
             let dialogue_line =
                 format!("Dialogue: 0,{start_time},{end_time},Default,,0,0,0,,{positioning}{text}");
diff --git a/crates/ass-editor/formats/webvtt/importer.rs b/crates/ass-editor/formats/webvtt/importer.rs
index e0e05b5..477fb8a 100644
--- a/crates/ass-editor/formats/webvtt/importer.rs
+++ b/crates/ass-editor/formats/webvtt/importer.rs
@@ -4,6 +4,7 @@
 //! into an ASS script and validating the generated result.
 
 use crate::core::{EditorDocument, EditorError};
+use crate::formats::cues::without_bom;
 use crate::formats::{FormatImporter, FormatInfo, FormatOptions, FormatResult};
 use ass_core::parser::Script;
 use std::io::Read;
@@ -26,7 +27,10 @@ impl FormatImporter for WebVttFormat {
             .read_to_string(&mut content)
             .map_err(|e| EditorError::IoError(format!("Failed to read WebVTT content: {e}")))?;
 
-        let lines: Vec<String> = content.lines().map(|s| s.to_string()).collect();
+        let lines: Vec<String> = without_bom(&content)
+            .lines()
+            .map(|s| s.to_string())
+            .collect();
         let mut warnings = Vec::new();
         let mut dialogues = Vec::new();
         let mut idx = 0;
diff --git a/crates/ass-editor/utils/formats/converter.rs b/crates/ass-editor/utils/formats/converter.rs
index 7630071..ebee57d 100644
--- a/crates/ass-editor/utils/formats/converter.rs
+++ b/crates/ass-editor/utils/formats/converter.rs
@@ -5,6 +5,7 @@
 
 use super::types::{ConversionOptions, SubtitleFormat};
 use crate::core::{EditorDocument, Result};
+use crate::formats::cues::without_bom;
 
 #[cfg(not(feature = "std"))]
 use alloc::string::{String, ToString};
@@ -17,14 +18,17 @@ impl FormatConverter {
     pub fn import(content: &str, format: Option<SubtitleFormat>) -> Result<String> {
         let detected_format = format.unwrap_or_else(|| SubtitleFormat::from_content(content));
 
+        // A byte order mark is no part of the first cue
+        let cues = without_bom(content);
+
         match detected_format {
             SubtitleFormat::ASS | SubtitleFormat::SSA => {
                 // Already in ASS/SSA format, just return
                 Ok(content.to_string())
             }
-            SubtitleFormat::SRT => Self::import_srt(content),
-            SubtitleFormat::WebVTT => Self::import_webvtt(content),
-            SubtitleFormat::PlainText => Self::import_plain_text(content),
+            SubtitleFormat::SRT => Self::import_srt(cues),
+            SubtitleFormat::WebVTT => Self::import_webvtt(cues),
+            SubtitleFormat::PlainText => Self::import_plain_text(cues),
         }
     }
 
diff --git a/crates/ass-editor/utils/formats/import_srt.rs b/crates/ass-editor/utils/formats/import_srt.rs
index 107f052..027edb2 100644
--- a/crates/ass-editor/utils/formats/import_srt.rs
+++ b/crates/ass-editor/utils/formats/import_srt.rs
@@ -62,9 +62,7 @@ impl FormatConverter {
             let line = line.trim();
 
             if line.is_empty() {
-                if let Some(entry) = current_entry.take() {
-                    entries.push(entry);
-                }
+                entries.extend(current_entry.take().filter(|_| in_text));
                 in_text = false;
                 continue;
             }
@@ -77,12 +75,14 @@ impl FormatConverter {
             }
 
             // Check if it's a timestamp line
-            if line.contains("-->") {
+            if line.contains("-->") && !in_text {
                 if let Some(ref mut entry) = current_entry {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() == 2 {
                         entry.start = Self::parse_srt_time(parts[0].trim())?;
-                        entry.end = Self::parse_srt_time(parts[1].trim())?;
+                        // Coordinates may follow the end time
+                        let end = parts[1].split_whitespace().next().unwrap_or_default();
+                        entry.end = Self::parse_srt_time(end)?;
                         in_text = true;
                     }
                 }
@@ -103,9 +103,7 @@ impl FormatConverter {
         }
 
         // Don't forget the last entry
-        if let Some(entry) = current_entry {
-            entries.push(entry);
-        }
+        entries.extend(current_entry.filter(|_| in_text));
 
         Ok(entries)
     }
diff --git a/crates/ass-editor/utils/formats/import_webvtt.rs b/crates/ass-editor/utils/formats/import_webvtt.rs
index fa1b765..d3b1dac 100644
--- a/crates/ass-editor/utils/formats/import_webvtt.rs
+++ b/crates/ass-editor/utils/formats/import_webvtt.rs
@@ -62,7 +62,8 @@ impl FormatConverter {
             let line = line.trim();
 
             // Skip WEBVTT header and empty lines
-            if line.starts_with("WEBVTT") || line.starts_with("NOTE") || line.is_empty() {
+            let is_heading = line.starts_with("WEBVTT") || line.starts_with("NOTE");
+            if line.is_empty() || is_heading && !in_cue {
                 if let Some(cue) = current_cue.take() {
                     cues.push(cue);
                 }
@@ -72,12 +73,16 @@ impl FormatConverter {
 
             // Check if it's a timestamp line
             if line.contains("-->") {
+                // The line also ends a cue that no empty line has ended
+                cues.extend(current_cue.take());
                 current_cue = Some(WebVttCue::default());
                 if let Some(ref mut cue) = current_cue {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() >= 2 {
                         cue.start = Self::parse_webvtt_time(parts[0].trim())?;
-                        cue.end = Self::parse_webvtt_time(parts[1].trim())?;
+                        // Cue settings may follow the end time
+                        let end = parts[1].split_whitespace().next().unwrap_or_default();
+                        cue.end = Self::parse_webvtt_time(end)?;
                         in_cue = true;
                     }
                 }
diff --git a/crates/ass-editor/utils/formats/types.rs b/crates/ass-editor/utils/formats/types.rs
index 82b1500..5379292 100644
--- a/crates/ass-editor/utils/formats/types.rs
+++ b/crates/ass-editor/utils/formats/types.rs
@@ -3,6 +3,8 @@
 //! Defines the supported [`SubtitleFormat`] variants along with the
 //! [`ConversionOptions`] and [`FormatOptions`] used to drive import and export.
 
+use crate::formats::cues::without_bom;
+
 /// Supported subtitle formats
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum SubtitleFormat {
@@ -33,6 +35,7 @@ impl SubtitleFormat {
 
     /// Detect format from content
     pub fn from_content(content: &str) -> Self {
+        let content = without_bom(content);
         if content.contains("[Script Info]") || content.contains("[Events]") {
             Self::ASS
         } else if content.starts_with("WEBVTT") {
-- 
2.43.0


From c74c5c62ac9693605f7a85189952465b86c55ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 70/94] fix: searching finds exactly the matches in scope, and
 replacing changes only them

---
 crates/ass-editor/utils/indexing/fst.rs       |  34 +-
 crates/ass-editor/utils/indexing/fst_build.rs |  78 +---
 .../ass-editor/utils/indexing/fst_search.rs   |  78 +---
 crates/ass-editor/utils/indexing/linear.rs    |  90 ++---
 crates/ass-editor/utils/search/basic.rs       | 122 -------
 crates/ass-editor/utils/search/engine.rs      |   3 +-
 crates/ass-editor/utils/search/incremental.rs | 209 ++++-------
 crates/ass-editor/utils/search/index.rs       |  98 +----
 crates/ass-editor/utils/search/mod.rs         |   4 +-
 crates/ass-editor/utils/search/query.rs       | 114 +-----
 .../ass-editor/utils/search/regex_search.rs   | 119 ------
 crates/ass-editor/utils/search/scan.rs        | 343 ++++++++++++++++++
 crates/ass-editor/utils/search/trait_impl.rs  |  28 +-
 13 files changed, 509 insertions(+), 811 deletions(-)
 delete mode 100644 crates/ass-editor/utils/search/basic.rs
 delete mode 100644 crates/ass-editor/utils/search/regex_search.rs
 create mode 100644 crates/ass-editor/utils/search/scan.rs

diff --git a/crates/ass-editor/utils/indexing/fst.rs b/crates/ass-editor/utils/indexing/fst.rs
index 15e47db..501fe90 100644
--- a/crates/ass-editor/utils/indexing/fst.rs
+++ b/crates/ass-editor/utils/indexing/fst.rs
@@ -1,11 +1,10 @@
 //! FST search index state and lightweight helpers.
 //!
 //! Holds the [`FstSearchIndex`] struct definition along with its constructor
-//! and search-scope filtering used by the
-//! [`DocumentSearch`](crate::utils::search::DocumentSearch) implementation.
+//! used by the [`DocumentSearch`](crate::utils::search::DocumentSearch)
+//! implementation.
 
-use super::common::IndexEntry;
-use crate::utils::search::SearchScope;
+use crate::core::Position;
 
 use fst::Set;
 
@@ -18,7 +17,10 @@ pub struct FstSearchIndex {
     pub(super) fst_set: Option<Set<Vec<u8>>>,
 
     /// Map from FST keys to document positions
-    pub(super) position_map: HashMap<String, Vec<IndexEntry>>,
+    pub(super) position_map: HashMap<String, Vec<Position>>,
+
+    /// Indexed text
+    pub(super) content: String,
 
     /// Last known document content hash for cache invalidation
     pub(super) content_hash: u64,
@@ -44,6 +46,7 @@ impl FstSearchIndex {
         Self {
             fst_set: None,
             position_map: HashMap::new(),
+            content: String::new(),
             content_hash: 0,
             build_time: {
                 #[cfg(feature = "std")]
@@ -59,24 +62,3 @@ impl FstSearchIndex {
         }
     }
 }
-
-#[cfg(feature = "search-index")]
-impl FstSearchIndex {
-    pub(super) fn matches_scope(&self, entry: &IndexEntry, scope: &SearchScope) -> bool {
-        match scope {
-            SearchScope::All => true,
-            SearchScope::Lines { start, end } => entry.line >= *start && entry.line <= *end,
-            SearchScope::Sections(sections) => {
-                if let Some(ref section) = entry.section_type {
-                    sections.contains(section)
-                } else {
-                    false
-                }
-            }
-            SearchScope::Range(range) => {
-                entry.position.offset >= range.start.offset
-                    && entry.position.offset <= range.end.offset
-            }
-        }
-    }
-}
diff --git a/crates/ass-editor/utils/indexing/fst_build.rs b/crates/ass-editor/utils/indexing/fst_build.rs
index de58176..7a409b2 100644
--- a/crates/ass-editor/utils/indexing/fst_build.rs
+++ b/crates/ass-editor/utils/indexing/fst_build.rs
@@ -1,8 +1,8 @@
-//! Word extraction and FST construction for [`FstSearchIndex`].
+//! FST construction for [`FstSearchIndex`].
 
-use super::common::IndexEntry;
 use super::fst::FstSearchIndex;
 use crate::core::{Position, Result};
+use crate::utils::search::scan::words;
 
 use fst::{Set, SetBuilder};
 
@@ -10,73 +10,12 @@ use std::collections::HashMap;
 
 #[cfg(feature = "search-index")]
 impl FstSearchIndex {
-    /// Extract words and positions from document content
-    pub(super) fn extract_words(&self, content: &str) -> Vec<(String, IndexEntry)> {
-        let mut words = Vec::new();
-        let mut line_start = 0;
-        let mut current_section = None;
-
-        for (current_line, line) in content.lines().enumerate() {
-            // Track current section
-            if line.starts_with('[') && line.ends_with(']') {
-                current_section = Some(line[1..line.len() - 1].to_string());
-            }
-
-            // Extract words from line
-            let mut word_start = 0;
-            let mut in_word = false;
-
-            for (char_offset, ch) in line.char_indices() {
-                if ch.is_alphanumeric() || ch == '_' {
-                    if !in_word {
-                        word_start = char_offset;
-                        in_word = true;
-                    }
-                } else if in_word {
-                    // End of word
-                    let word = &line[word_start..char_offset];
-                    if word.len() >= 2 {
-                        // Index words with 2+ characters
-                        let entry = IndexEntry {
-                            position: Position::new(line_start + word_start),
-                            context: line.to_string(),
-                            line: current_line,
-                            column: word_start,
-                            section_type: current_section.clone(),
-                        };
-                        words.push((word.to_lowercase(), entry));
-                    }
-                    in_word = false;
-                }
-            }
-
-            // Handle word at end of line
-            if in_word {
-                let word = &line[word_start..];
-                if word.len() >= 2 {
-                    let entry = IndexEntry {
-                        position: Position::new(line_start + word_start),
-                        context: line.to_string(),
-                        line: current_line,
-                        column: word_start,
-                        section_type: current_section.clone(),
-                    };
-                    words.push((word.to_lowercase(), entry));
-                }
-            }
-
-            line_start += line.len() + 1; // +1 for newline
-        }
-
-        words
-    }
-
-    /// Build FST from extracted words
-    pub(super) fn build_fst(&mut self, words: Vec<(String, IndexEntry)>) -> Result<()> {
-        // Group entries by word
-        let mut word_map: HashMap<String, Vec<IndexEntry>> = HashMap::new();
-        for (word, entry) in words {
-            word_map.entry(word).or_default().push(entry);
+    /// Build FST from the words of the document content
+    pub(super) fn build_fst(&mut self, content: String) -> Result<()> {
+        // Group positions by word
+        let mut word_map: HashMap<String, Vec<Position>> = HashMap::new();
+        for (word, position) in words(&content) {
+            word_map.entry(word).or_default().push(position);
         }
 
         // Build FST set
@@ -106,6 +45,7 @@ impl FstSearchIndex {
                 })?,
             );
         self.position_map = word_map;
+        self.content = content;
 
         Ok(())
     }
diff --git a/crates/ass-editor/utils/indexing/fst_search.rs b/crates/ass-editor/utils/indexing/fst_search.rs
index 86cebfa..11270c3 100644
--- a/crates/ass-editor/utils/indexing/fst_search.rs
+++ b/crates/ass-editor/utils/indexing/fst_search.rs
@@ -2,10 +2,8 @@
 
 use super::common::calculate_hash;
 use super::fst::FstSearchIndex;
-use crate::core::{EditorDocument, Position, Range, Result};
-use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
-
-use fst::{automaton, IntoStreamer, Streamer};
+use crate::core::{EditorDocument, Range, Result};
+use crate::utils::search::{scan, DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
 use std::time::Instant;
 
@@ -25,8 +23,7 @@ impl DocumentSearch for FstSearchIndex {
             }
         };
 
-        let words = self.extract_words(&content);
-        self.build_fst(words)?;
+        self.build_fst(content)?;
 
         Ok(())
     }
@@ -42,53 +39,16 @@ impl DocumentSearch for FstSearchIndex {
         pattern: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        #[cfg(feature = "std")]
-        let _start_time = Instant::now();
-        let mut results = Vec::new();
-
-        if let Some(ref fst_set) = self.fst_set {
-            let query = if options.case_sensitive {
-                pattern.to_string()
-            } else {
-                pattern.to_lowercase()
-            };
-
-            // For simplicity, use subsequence automaton for all searches
-            // In production, this could be optimized with different automaton types
-            let automaton = automaton::Subsequence::new(&query);
-            let mut stream = fst_set.search(automaton).into_stream();
-            let mut count = 0;
-
-            while let Some(key) = stream.next() {
-                if options.max_results > 0 && count >= options.max_results {
-                    break;
-                }
-
-                let key_str = String::from_utf8_lossy(key);
-                if let Some(entries) = self.position_map.get(key_str.as_ref()) {
-                    for entry in entries {
-                        // Apply scope filtering
-                        if self.matches_scope(entry, &options.scope) {
-                            results.push(SearchResult {
-                                start: entry.position,
-                                end: Position::new(entry.position.offset + pattern.len()),
-                                text: std::borrow::Cow::Owned(pattern.to_string()),
-                                context: std::borrow::Cow::Owned(entry.context.clone()),
-                                line: entry.line,
-                                column: entry.column,
-                            });
-                            count += 1;
-
-                            if options.max_results > 0 && count >= options.max_results {
-                                break;
-                            }
-                        }
-                    }
-                }
-            }
+        match &self.fst_set {
+            Some(index) => scan::find_in_words(
+                &self.content,
+                index,
+                |word| self.position_map.get(word),
+                pattern,
+                options,
+            ),
+            None => Ok(Vec::new()),
         }
-
-        Ok(results)
     }
 
     fn find_replace<'a>(
@@ -98,18 +58,7 @@ impl DocumentSearch for FstSearchIndex {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-
-        // Apply replacements in reverse order to maintain position validity
-        let mut sorted_results = results.clone();
-        sorted_results.sort_by_key(|r| core::cmp::Reverse(r.start.offset));
-
-        for result in &sorted_results {
-            let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
-        }
-
-        Ok(results)
+        scan::replace_all(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
@@ -133,6 +82,7 @@ impl DocumentSearch for FstSearchIndex {
     fn clear_index(&mut self) {
         self.fst_set = None;
         self.position_map.clear();
+        self.content.clear();
         self.index_size = 0;
     }
 }
diff --git a/crates/ass-editor/utils/indexing/linear.rs b/crates/ass-editor/utils/indexing/linear.rs
index d6fca10..0436abe 100644
--- a/crates/ass-editor/utils/indexing/linear.rs
+++ b/crates/ass-editor/utils/indexing/linear.rs
@@ -1,27 +1,26 @@
 //! Linear search index fallback used when the FST backend is unavailable.
 
-use super::common::{calculate_hash, IndexEntry};
-use crate::core::{EditorDocument, Position, Range, Result};
+use super::common::calculate_hash;
+use crate::core::{EditorDocument, Range, Result};
+use crate::utils::search::scan;
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
 #[cfg(feature = "std")]
-use std::{borrow::Cow, collections::HashMap, time::Instant};
+use std::{collections::BTreeSet, time::Instant};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    borrow::Cow,
-    collections::BTreeMap as HashMap,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{collections::BTreeSet, string::String, vec::Vec};
 
 #[cfg(not(feature = "std"))]
 type Instant = u64;
 
 /// Linear search fallback for when FST is not available
 pub struct LinearSearchIndex {
-    /// Simple word -> positions mapping
-    word_positions: HashMap<String, Vec<IndexEntry>>,
+    /// Text to search
+    content: String,
+
+    /// Number of different words
+    word_count: usize,
 
     /// Content hash for invalidation
     content_hash: u64,
@@ -40,7 +39,8 @@ impl LinearSearchIndex {
     /// Create a new linear search index
     pub fn new() -> Self {
         Self {
-            word_positions: HashMap::new(),
+            content: String::new(),
+            word_count: 0,
             content_hash: 0,
             build_time: {
                 #[cfg(feature = "std")]
@@ -71,27 +71,12 @@ impl DocumentSearch for LinearSearchIndex {
             }
         };
 
-        // Simple word extraction for linear search
-        self.word_positions.clear();
-
-        let mut line_start = 0;
-
-        for (current_line, line) in content.lines().enumerate() {
-            for (word_start, word) in line.split_whitespace().enumerate() {
-                let entry = IndexEntry {
-                    position: Position::new(line_start + word_start),
-                    context: line.to_string(),
-                    line: current_line,
-                    column: word_start,
-                    section_type: None,
-                };
-                self.word_positions
-                    .entry(word.to_lowercase())
-                    .or_default()
-                    .push(entry);
-            }
-            line_start += line.len() + 1;
-        }
+        self.word_count = content
+            .split_whitespace()
+            .map(str::to_lowercase)
+            .collect::<BTreeSet<_>>()
+            .len();
+        self.content = content;
 
         Ok(())
     }
@@ -100,27 +85,8 @@ impl DocumentSearch for LinearSearchIndex {
         self.build_index(document)
     }
 
-    fn search(&self, pattern: &str, _options: &SearchOptions) -> Result<Vec<SearchResult<'_>>> {
-        let query = pattern.to_lowercase();
-        let mut results = Vec::new();
-
-        // Simple linear search through indexed words
-        for (word, entries) in &self.word_positions {
-            if word.contains(&query) {
-                for entry in entries {
-                    results.push(SearchResult {
-                        start: entry.position,
-                        end: Position::new(entry.position.offset + pattern.len()),
-                        text: Cow::Owned(pattern.to_string()),
-                        context: Cow::Owned(entry.context.clone()),
-                        line: entry.line,
-                        column: entry.column,
-                    });
-                }
-            }
-        }
-
-        Ok(results)
+    fn search(&self, pattern: &str, options: &SearchOptions) -> Result<Vec<SearchResult<'_>>> {
+        scan::find(&self.content, pattern, options)
     }
 
     fn find_replace<'a>(
@@ -130,19 +96,12 @@ impl DocumentSearch for LinearSearchIndex {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-
-        for result in &results {
-            let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
-        }
-
-        Ok(results)
+        scan::replace_all(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
         SearchStats {
-            match_count: self.word_positions.len(),
+            match_count: self.word_count,
             search_time_us: {
                 #[cfg(feature = "std")]
                 {
@@ -154,11 +113,12 @@ impl DocumentSearch for LinearSearchIndex {
                 }
             },
             hit_limit: false,
-            index_size: self.word_positions.len() * 64, // Rough estimate
+            index_size: self.word_count * 64, // Rough estimate
         }
     }
 
     fn clear_index(&mut self) {
-        self.word_positions.clear();
+        self.content.clear();
+        self.word_count = 0;
     }
 }
diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
deleted file mode 100644
index 99b3f39..0000000
--- a/crates/ass-editor/utils/search/basic.rs
+++ /dev/null
@@ -1,122 +0,0 @@
-//! Basic (non-indexed) substring search
-//!
-//! Implements the fallback text search used by
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl) when no FST index is
-//! available or the `search-index` feature is disabled.
-
-use super::engine::DocumentSearchImpl;
-use super::options::{SearchOptions, SearchResult, SearchScope};
-use crate::core::{Position, Result};
-
-#[cfg(feature = "std")]
-use std::borrow::Cow;
-
-#[cfg(not(feature = "std"))]
-use alloc::borrow::Cow;
-
-#[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
-
-impl DocumentSearchImpl {
-    /// Perform basic text search without FST indexing
-    pub(super) fn basic_search(
-        &self,
-        pattern: &str,
-        options: &SearchOptions,
-    ) -> Result<Vec<SearchResult<'static>>> {
-        let mut results = Vec::new();
-        let search_pattern = if options.case_sensitive {
-            pattern.to_string()
-        } else {
-            pattern.to_lowercase()
-        };
-
-        let search_text = if options.case_sensitive {
-            Cow::Borrowed(&self.cached_text)
-        } else {
-            Cow::Owned(self.cached_text.to_lowercase())
-        };
-
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, search_text.len()),
-            SearchScope::Range(range) => {
-                (range.start.offset, range.end.offset.min(search_text.len()))
-            }
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = search_text.len();
-
-                for (i, ch) in search_text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, search_text.len())
-            }
-        };
-
-        let search_region = &search_text[search_start..search_end];
-        let mut region_offset = 0;
-
-        while let Some(match_idx) = search_region[region_offset..].find(&search_pattern) {
-            let absolute_idx = search_start + region_offset + match_idx;
-            let match_end = absolute_idx + search_pattern.len();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-
-            for (i, ch) in self.cached_text[..absolute_idx].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
-                }
-            }
-
-            let column = absolute_idx - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = self.cached_text[..absolute_idx]
-                .rfind('\n')
-                .map(|i| i + 1)
-                .unwrap_or(0);
-            let context_end = self.cached_text[absolute_idx..]
-                .find('\n')
-                .map(|i| absolute_idx + i)
-                .unwrap_or(self.cached_text.len());
-            let context = self.cached_text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(absolute_idx),
-                end: Position::new(match_end),
-                text: Cow::Owned(self.cached_text[absolute_idx..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
-
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
-            }
-
-            region_offset += match_idx + 1;
-        }
-
-        Ok(results)
-    }
-}
diff --git a/crates/ass-editor/utils/search/engine.rs b/crates/ass-editor/utils/search/engine.rs
index 45f5e92..5fcf624 100644
--- a/crates/ass-editor/utils/search/engine.rs
+++ b/crates/ass-editor/utils/search/engine.rs
@@ -103,8 +103,9 @@ impl DocumentSearchImpl {
     /// Generate cache key for search parameters
     pub(super) fn cache_key(&self, pattern: &str, options: &SearchOptions) -> String {
         format!(
-            "{}|{}|{}|{}|{:?}",
+            "{}|{}|{}|{}|{}|{:?}",
             pattern,
+            options.use_regex,
             options.case_sensitive,
             options.whole_words,
             options.max_results,
diff --git a/crates/ass-editor/utils/search/incremental.rs b/crates/ass-editor/utils/search/incremental.rs
index eeee808..3f88dda 100644
--- a/crates/ass-editor/utils/search/incremental.rs
+++ b/crates/ass-editor/utils/search/incremental.rs
@@ -7,27 +7,15 @@
 use super::engine::DocumentSearchImpl;
 use crate::core::{EditorDocument, Range, Result};
 
+#[cfg(feature = "search-index")]
+use super::scan::{is_word_char, words};
+
 #[cfg(feature = "search-index")]
 use super::traits::DocumentSearch;
 
 #[cfg(feature = "search-index")]
 use crate::core::Position;
 
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::borrow::Cow;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::collections::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use hashbrown::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::vec::Vec;
-
 impl DocumentSearchImpl {
     pub(super) fn update_index_impl(
         &mut self,
@@ -38,18 +26,6 @@ impl DocumentSearchImpl {
             return Ok(());
         }
 
-        // Update cached text first
-        self.cached_text = document.text();
-
-        // For non-FST search, we're done after updating the text
-        #[cfg(not(feature = "search-index"))]
-        {
-            self.document_version += 1;
-            self.result_cache.clear();
-            Ok(())
-        }
-
-        // For FST search, perform incremental updates
         #[cfg(feature = "search-index")]
         {
             // Calculate total change size
@@ -59,127 +35,90 @@ impl DocumentSearchImpl {
                 .sum();
 
             // If too many changes or large changes, rebuild entirely
-            if changes.len() > 10 || total_change_size > 1000 {
+            if self.word_index.is_none() || changes.len() > 10 || total_change_size > 1000 {
                 return self.build_index(document);
             }
+        }
 
-            // Sort changes by position to process them in order
-            let mut sorted_changes = changes.to_vec();
-            sorted_changes.sort_by_key(|r| r.start.offset);
-
-            // Calculate cumulative offset adjustments
-            let mut offset_adjustments: Vec<(usize, isize)> = Vec::new();
-            let mut cumulative_adjustment = 0isize;
-
-            for change in &sorted_changes {
-                let old_len = change.end.offset - change.start.offset;
-                // Find the actual new text in this region
-                let new_text_region = &self.cached_text[change
-                    .start
-                    .offset
-                    .saturating_add_signed(cumulative_adjustment)..];
-
-                // Estimate new length by finding next unchanged content
-                let new_len = if let Some(next_change) = sorted_changes
-                    .iter()
-                    .find(|c| c.start.offset > change.end.offset)
-                {
-                    let expected_gap = next_change.start.offset - change.end.offset;
-                    new_text_region.len().min(expected_gap)
-                } else {
-                    // No more changes, estimate based on word boundaries
-                    new_text_region
-                        .find(['\n', '\r'])
-                        .unwrap_or(new_text_region.len().min(old_len * 2))
-                };
-
-                let adjustment = new_len as isize - old_len as isize;
-                offset_adjustments.push((change.start.offset, adjustment));
-                cumulative_adjustment += adjustment;
-            }
-
-            // Update word positions
-            let mut updated_positions = HashMap::new();
-
-            for (word, positions) in &self.word_positions {
-                let mut new_positions = Vec::new();
-
-                for &pos in positions {
-                    let mut adjusted_offset = pos.offset;
-                    let mut should_remove = false;
-
-                    // Check each change to see how it affects this position
-                    for (i, change) in sorted_changes.iter().enumerate() {
-                        if pos.offset >= change.start.offset && pos.offset < change.end.offset {
-                            // Word was in changed region - remove it
-                            should_remove = true;
-                            break;
-                        } else if pos.offset >= change.end.offset {
-                            // Word is after this change - apply adjustment
-                            let (_, adjustment) = offset_adjustments[i];
-                            adjusted_offset = adjusted_offset.saturating_add_signed(adjustment);
-                        }
-                    }
+        let new_text = document.text();
+        #[cfg(feature = "search-index")]
+        let old_text = core::mem::replace(&mut self.cached_text, new_text);
+        #[cfg(not(feature = "search-index"))]
+        {
+            self.cached_text = new_text;
+            self.stats.index_size = self.cached_text.len();
+        }
 
-                    if !should_remove {
-                        new_positions.push(Position::new(adjusted_offset));
+        #[cfg(feature = "search-index")]
+        {
+            let (kept_front, kept_back) = unchanged(&old_text, &self.cached_text);
+            let old_end = old_text.len() - kept_back;
+            let new_end = self.cached_text.len() - kept_back;
+
+            // Keep the words before the change and move those behind it
+            for positions in self.word_positions.values_mut() {
+                positions.retain_mut(|position| {
+                    if position.offset >= old_end {
+                        position.offset = position.offset - old_end + new_end;
+                        true
+                    } else {
+                        position.offset < kept_front
                     }
-                }
-
-                if !new_positions.is_empty() {
-                    updated_positions.insert(word.clone(), new_positions);
-                }
+                });
             }
 
-            // Extract new words from changed regions
-            for (i, change) in sorted_changes.iter().enumerate() {
-                let start_adjustment: isize =
-                    offset_adjustments[..i].iter().map(|(_, adj)| adj).sum();
-                let adjusted_start = change.start.offset.saturating_add_signed(start_adjustment);
-
-                // Get text around the change
-                let extract_start = adjusted_start.saturating_sub(50);
-                let extract_end = (adjusted_start + 100).min(self.cached_text.len());
-
-                if extract_start < extract_end {
-                    let region_text = &self.cached_text[extract_start..extract_end];
-                    let new_words = self.extract_words(region_text);
-
-                    // Add new words with adjusted positions
-                    for (word, positions) in new_words {
-                        let entry = updated_positions.entry(word.into_owned()).or_default();
-                        for pos in positions {
-                            let global_pos = Position::new(pos.offset + extract_start);
-                            if !entry.contains(&global_pos) {
-                                entry.push(global_pos);
-                            }
-                        }
-                        entry.sort_by_key(|p| p.offset);
-                    }
-                }
+            // Index the words of what has changed
+            for (word, position) in words(&self.cached_text[kept_front..new_end]) {
+                self.word_positions
+                    .entry(word)
+                    .or_default()
+                    .push(Position::new(kept_front + position.offset));
             }
-
-            // Update the word positions
-            self.word_positions = updated_positions;
+            self.word_positions
+                .retain(|_, positions| !positions.is_empty());
 
             // Rebuild FST with updated word list
-            if !self.word_positions.is_empty() {
-                let words: Vec<(Cow<str>, Vec<Position>)> = self
-                    .word_positions
-                    .iter()
-                    .map(|(k, v)| (Cow::Borrowed(k.as_str()), v.clone()))
-                    .collect();
-                self.word_index = Some(self.build_fst(&words)?);
-            } else {
-                self.word_index = None;
-            }
+            self.word_index = Some(self.build_fst()?);
 
             // Update statistics
             self.stats.index_size = self.word_positions.len() * 50;
-            self.document_version += 1;
-            self.result_cache.clear();
-
-            Ok(())
         }
+
+        self.document_version += 1;
+        self.result_cache.clear();
+
+        Ok(())
+    }
+}
+
+/// How many bytes at the front and at the back two texts have in common,
+/// counting whole words only
+#[cfg(feature = "search-index")]
+fn unchanged(old: &str, new: &str) -> (usize, usize) {
+    let shorter = old.len().min(new.len());
+    let mut front = old
+        .bytes()
+        .zip(new.bytes())
+        .take_while(|(a, b)| a == b)
+        .count();
+    while !old.is_char_boundary(front) || !new.is_char_boundary(front) {
+        front -= 1;
     }
+    front = old[..front].trim_end_matches(is_word_char).len();
+
+    let mut back = old
+        .bytes()
+        .rev()
+        .zip(new.bytes().rev())
+        .take(shorter - front)
+        .take_while(|(a, b)| a == b)
+        .count();
+    while !old.is_char_boundary(old.len() - back) || !new.is_char_boundary(new.len() - back) {
+        back -= 1;
+    }
+    back = old[old.len() - back..]
+        .trim_start_matches(is_word_char)
+        .len();
+
+    (front, back)
 }
diff --git a/crates/ass-editor/utils/search/index.rs b/crates/ass-editor/utils/search/index.rs
index b28ba4d..d748ba8 100644
--- a/crates/ass-editor/utils/search/index.rs
+++ b/crates/ass-editor/utils/search/index.rs
@@ -1,104 +1,26 @@
 //! FST word-index construction helpers
 //!
-//! Provides the word-extraction and FST-building routines used by the
+//! Provides the FST-building routine used by the
 //! [`DocumentSearchImpl`](super::DocumentSearchImpl) indexing paths when the
 //! `search-index` feature is enabled.
 
 use super::engine::DocumentSearchImpl;
-
-#[cfg(feature = "search-index")]
-use crate::core::{Position, Result};
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::borrow::Cow;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::collections::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use hashbrown::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::{format, string::String, vec::Vec};
-
-#[cfg(feature = "search-index")]
+use crate::core::{EditorError, Result};
 use fst::{Set, SetBuilder};
 
 impl DocumentSearchImpl {
-    /// Extract words from document text for indexing
-    #[cfg(feature = "search-index")]
-    pub(super) fn extract_words<'a>(&self, text: &'a str) -> Vec<(Cow<'a, str>, Vec<Position>)> {
-        let mut words: HashMap<Cow<'a, str>, Vec<Position>> = HashMap::new();
-        let mut word_start_byte = None;
-        let mut current_word = String::new();
-        let mut word_start_idx = 0;
-
-        for (byte_idx, ch) in text.char_indices() {
-            if ch.is_alphanumeric() || ch == '_' {
-                if word_start_byte.is_none() {
-                    word_start_byte = Some(byte_idx);
-                    word_start_idx = byte_idx;
-                }
-                current_word.push(ch);
-            } else {
-                if let Some(start_byte) = word_start_byte {
-                    if !current_word.is_empty() {
-                        // Use Cow to avoid allocation when possible
-                        let word_slice = &text[word_start_idx..byte_idx];
-                        let word_key = if word_slice.chars().all(|c| c.is_lowercase()) {
-                            Cow::Borrowed(word_slice)
-                        } else {
-                            Cow::Owned(current_word.to_lowercase())
-                        };
+    /// Build the FST of the indexed words
+    pub(super) fn build_fst(&self) -> Result<Set<Vec<u8>>> {
+        let mut word_list: Vec<&str> = self.word_positions.keys().map(String::as_str).collect();
+        word_list.sort_unstable();
 
-                        words
-                            .entry(word_key)
-                            .or_default()
-                            .push(Position::new(start_byte));
-                    }
-                }
-                current_word.clear();
-                word_start_byte = None;
-            }
-        }
-
-        // Handle final word
-        if let Some(start_byte) = word_start_byte {
-            if !current_word.is_empty() {
-                let word_slice = &text[word_start_idx..];
-                let word_key = if word_slice.chars().all(|c| c.is_lowercase()) {
-                    Cow::Borrowed(word_slice)
-                } else {
-                    Cow::Owned(current_word.to_lowercase())
-                };
-
-                words
-                    .entry(word_key)
-                    .or_default()
-                    .push(Position::new(start_byte));
-            }
-        }
-
-        words.into_iter().collect()
-    }
-
-    /// Build FST from word list
-    #[cfg(feature = "search-index")]
-    pub(super) fn build_fst(&self, words: &[(Cow<str>, Vec<Position>)]) -> Result<Set<Vec<u8>>> {
         let mut builder = SetBuilder::memory();
-        let mut word_list: Vec<&str> = words.iter().map(|(word, _)| word.as_ref()).collect();
-        word_list.sort();
-        word_list.dedup();
-
         for word in word_list {
-            builder.insert(word.as_bytes()).map_err(|e| {
-                crate::core::EditorError::CommandFailed {
+            builder
+                .insert(word)
+                .map_err(|e| EditorError::CommandFailed {
                     message: format!("FST build error: {e}"),
-                }
-            })?;
+                })?;
         }
 
         Ok(builder.into_set())
diff --git a/crates/ass-editor/utils/search/mod.rs b/crates/ass-editor/utils/search/mod.rs
index 3d8f42b..db615c1 100644
--- a/crates/ass-editor/utils/search/mod.rs
+++ b/crates/ass-editor/utils/search/mod.rs
@@ -4,13 +4,13 @@
 //! FST-based indexing, regex support, and incremental updates. Targets
 //! <10ms initial indexing and <1ms query response times.
 
-mod basic;
 mod engine;
 mod incremental;
+#[cfg(feature = "search-index")]
 mod index;
 mod options;
 mod query;
-mod regex_search;
+pub(crate) mod scan;
 mod trait_impl;
 mod traits;
 
diff --git a/crates/ass-editor/utils/search/query.rs b/crates/ass-editor/utils/search/query.rs
index 2f00fbe..a4b0ed1 100644
--- a/crates/ass-editor/utils/search/query.rs
+++ b/crates/ass-editor/utils/search/query.rs
@@ -1,31 +1,16 @@
 //! Search query execution
 //!
 //! Implements the core query dispatch for
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl), routing between FST,
-//! regex, and basic search depending on enabled features and options.
+//! [`DocumentSearchImpl`](super::DocumentSearchImpl), which uses the FST index
+//! where there is one.
 
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult};
+use super::scan;
 use crate::core::Result;
 
-#[cfg(feature = "std")]
-use std::time::Instant;
-
-#[cfg(not(feature = "std"))]
-#[allow(dead_code)]
-type Instant = u64;
-
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(feature = "search-index")]
-use fst::{automaton, IntoStreamer, Streamer};
-
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::{format, string::String};
+use alloc::vec::Vec;
 
 impl DocumentSearchImpl {
     pub(super) fn search_impl<'a>(
@@ -33,92 +18,23 @@ impl DocumentSearchImpl {
         pattern: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        #[cfg(feature = "std")]
-        let _start_time = Instant::now();
-
         // Check cache first
         let cache_key = self.cache_key(pattern, options);
         if let Some(cached_results) = self.result_cache.get(&cache_key) {
             return Ok(cached_results.clone());
         }
 
-        let results = if options.use_regex {
-            // Use regex search
-            #[cfg(all(feature = "formats", feature = "std"))]
-            {
-                self.regex_search(pattern, options)?
-            }
-            #[cfg(not(all(feature = "formats", feature = "std")))]
-            {
-                return Err(crate::core::EditorError::CommandFailed {
-                    message: "Regex search requires the 'formats' feature to be enabled"
-                        .to_string(),
-                });
-            }
-        } else {
-            // Check if we should use FST or basic search
-            #[cfg(feature = "search-index")]
-            {
-                if let Some(ref fst) = self.word_index {
-                    // Use FST for search
-                    let search_pattern = if options.case_sensitive {
-                        pattern.to_string()
-                    } else {
-                        pattern.to_lowercase()
-                    };
-
-                    let mut results = Vec::new();
-
-                    // Create automaton for prefix search
-                    let mut stream = fst
-                        .search(automaton::Str::new(&search_pattern))
-                        .into_stream();
-
-                    while let Some(key) = stream.next() {
-                        let word = String::from_utf8_lossy(key);
-                        if let Some(positions) = self.word_positions.get(word.as_ref()) {
-                            for &pos in positions {
-                                results.push(SearchResult {
-                                    start: pos,
-                                    end: Position::new(pos.offset + pattern.len()),
-                                    text: std::borrow::Cow::Owned(pattern.to_string()),
-                                    context: std::borrow::Cow::Owned(format!(
-                                        "Offset {}",
-                                        pos.offset
-                                    )),
-                                    line: 0, // Would need document context to calculate actual line
-                                    column: pos.offset,
-                                });
-
-                                if options.max_results > 0 && results.len() >= options.max_results {
-                                    break;
-                                }
-                            }
-                        }
-
-                        if options.max_results > 0 && results.len() >= options.max_results {
-                            break;
-                        }
-                    }
-
-                    results
-                } else {
-                    // FST index not built yet, use basic search
-                    self.basic_search(pattern, options)?
-                }
-            }
-            #[cfg(not(feature = "search-index"))]
-            {
-                // Use basic text search when FST is not available
-                self.basic_search(pattern, options)?
-            }
-        };
-
-        // Update statistics (would need mutable access in real implementation)
-        // self.stats.match_count = results.len();
-        // self.stats.search_time_us = search_time;
-        // self.stats.hit_limit = options.max_results > 0 && results.len() >= options.max_results;
+        #[cfg(feature = "search-index")]
+        if let Some(index) = &self.word_index {
+            return scan::find_in_words(
+                &self.cached_text,
+                index,
+                |word| self.word_positions.get(word),
+                pattern,
+                options,
+            );
+        }
 
-        Ok(results)
+        scan::find(&self.cached_text, pattern, options)
     }
 }
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
deleted file mode 100644
index 92dbd0d..0000000
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ /dev/null
@@ -1,119 +0,0 @@
-//! Regular-expression search
-//!
-//! Implements regex-based matching for
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl) when both the `formats`
-//! and `std` features are enabled.
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use super::engine::DocumentSearchImpl;
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use super::options::{SearchOptions, SearchResult, SearchScope};
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use crate::core::{Position, Result};
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use regex::Regex;
-
-#[cfg(all(feature = "formats", feature = "std"))]
-impl DocumentSearchImpl {
-    /// Perform regex-based search
-    pub(super) fn regex_search(
-        &self,
-        pattern: &str,
-        options: &SearchOptions,
-    ) -> Result<Vec<SearchResult<'static>>> {
-        use crate::core::EditorError;
-
-        // Compile regex
-        let regex_pattern = if options.case_sensitive {
-            Regex::new(pattern)
-        } else {
-            Regex::new(&format!("(?i){pattern}"))
-        };
-
-        let regex = regex_pattern.map_err(|e| EditorError::CommandFailed {
-            message: format!("Invalid regex pattern: {e}"),
-        })?;
-
-        let mut results = Vec::new();
-        let text = &self.cached_text;
-
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, text.len()),
-            SearchScope::Range(range) => (range.start.offset, range.end.offset.min(text.len())),
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = text.len();
-
-                for (i, ch) in text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_sections) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, text.len())
-            }
-        };
-
-        let search_text = &text[search_start..search_end];
-
-        // Find all matches
-        for mat in regex.find_iter(search_text) {
-            let match_start = search_start + mat.start();
-            let match_end = search_start + mat.end();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-            for (i, ch) in text[..match_start].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
-                }
-            }
-            let column = match_start - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = text[..match_start].rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let context_end = text[match_start..]
-                .find('\n')
-                .map(|i| match_start + i)
-                .unwrap_or(text.len());
-            let context = text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(match_start),
-                end: Position::new(match_end),
-                text: Cow::Owned(text[match_start..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
-
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
-            }
-        }
-
-        Ok(results)
-    }
-}
diff --git a/crates/ass-editor/utils/search/scan.rs b/crates/ass-editor/utils/search/scan.rs
new file mode 100644
index 0000000..dcdb4b9
--- /dev/null
+++ b/crates/ass-editor/utils/search/scan.rs
@@ -0,0 +1,343 @@
+//! Scanning of text for a pattern
+//!
+//! The one place that decides what a search finds. Every search backend hands
+//! its text to [`find`], or to [`find_in_words`] together with a word index
+//! that tells where to look.
+
+use super::options::{SearchOptions, SearchResult, SearchScope};
+use crate::core::{EditorDocument, Position, Range, Result};
+
+#[cfg(feature = "std")]
+use std::borrow::Cow;
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    borrow::Cow,
+    string::{String, ToString},
+    vec,
+    vec::Vec,
+};
+
+#[cfg(feature = "search-index")]
+use fst::{automaton, IntoStreamer, Set, Streamer};
+
+/// Find all matches of a pattern in the order of the text
+///
+/// Matches do not overlap, and lie within the scope of the options.
+pub(crate) fn find(
+    text: &str,
+    pattern: &str,
+    options: &SearchOptions,
+) -> Result<Vec<SearchResult<'static>>> {
+    find_in_regions(text, &regions(text, &options.scope), pattern, options)
+}
+
+/// Find all matches of a pattern with the help of a word index
+///
+/// `positions` tells where the words of the index, which are those of
+/// [`words`], stand in the text. The result is that of [`find`].
+#[cfg(feature = "search-index")]
+pub(crate) fn find_in_words<'p>(
+    text: &str,
+    index: &Set<Vec<u8>>,
+    positions: impl Fn(&str) -> Option<&'p Vec<Position>>,
+    pattern: &str,
+    options: &SearchOptions,
+) -> Result<Vec<SearchResult<'static>>> {
+    // A match lies within one word only if nothing but word characters is searched
+    let folded = fold(pattern);
+    if options.use_regex || folded.is_empty() || !folded.chars().all(is_word_char) {
+        return find(text, pattern, options);
+    }
+
+    let mut found: Vec<(usize, usize)> = Vec::new();
+    let mut stream = index
+        .search(automaton::Subsequence::new(&folded))
+        .into_stream();
+    while let Some(key) = stream.next() {
+        let Ok(word) = core::str::from_utf8(key) else {
+            continue;
+        };
+        if !word.contains(&folded) {
+            continue;
+        }
+        for position in positions(word).into_iter().flatten() {
+            let start = position.offset;
+            found.push((start, word_end(text, start)));
+        }
+    }
+    found.sort_unstable();
+
+    // The parts of these words that are in scope
+    let mut in_scope = Vec::with_capacity(found.len());
+    let mut scope = regions(text, &options.scope).into_iter().peekable();
+    let mut words = found.into_iter().peekable();
+    while let (Some(&(from, to)), Some(&(start, end))) = (scope.peek(), words.peek()) {
+        if from.max(start) < to.min(end) {
+            in_scope.push((from.max(start), to.min(end)));
+        }
+        if end <= to {
+            words.next();
+        } else {
+            scope.next();
+        }
+    }
+
+    find_in_regions(text, &in_scope, pattern, options)
+}
+
+/// Replace all matches in a document as one edit
+pub(crate) fn replace_all(
+    document: &mut EditorDocument,
+    pattern: &str,
+    replacement: &str,
+    options: &SearchOptions,
+) -> Result<Vec<SearchResult<'static>>> {
+    let text = document.text();
+    let results = find(&text, pattern, options)?;
+
+    if let (Some(first), Some(last)) = (results.first(), results.last()) {
+        let mut replaced = String::new();
+        let mut kept_from = first.start.offset;
+        for result in &results {
+            replaced.push_str(&text[kept_from..result.start.offset]);
+            replaced.push_str(replacement);
+            kept_from = result.end.offset;
+        }
+        document.replace(Range::new(first.start, last.end), &replaced)?;
+    }
+
+    Ok(results)
+}
+
+/// The words of a text with their places, in lower case
+#[cfg(feature = "search-index")]
+pub(crate) fn words(text: &str) -> impl Iterator<Item = (String, Position)> + '_ {
+    let mut from = 0;
+    core::iter::from_fn(move || {
+        let start = from + text[from..].find(is_word_char)?;
+        from = word_end(text, start);
+        Some((fold(&text[start..from]), Position::new(start)))
+    })
+}
+
+/// Whether a character is part of a word
+pub(crate) fn is_word_char(ch: char) -> bool {
+    ch.is_alphanumeric() || ch == '_'
+}
+
+/// The end of the word that begins at an offset
+#[cfg(feature = "search-index")]
+fn word_end(text: &str, start: usize) -> usize {
+    text[start..]
+        .find(|ch| !is_word_char(ch))
+        .map_or(text.len(), |length| start + length)
+}
+
+/// Lower case of each character by itself, so that a part of a text has the
+/// same lower case wherever it stands
+#[cfg(feature = "search-index")]
+fn fold(text: &str) -> String {
+    text.chars().flat_map(char::to_lowercase).collect()
+}
+
+fn find_in_regions(
+    text: &str,
+    regions: &[(usize, usize)],
+    pattern: &str,
+    options: &SearchOptions,
+) -> Result<Vec<SearchResult<'static>>> {
+    let mut results = Results {
+        text,
+        options,
+        found: Vec::new(),
+        line: 0,
+        line_start: 0,
+    };
+
+    if options.use_regex {
+        find_regex(regions, pattern, &mut results)?;
+    } else if !pattern.is_empty() {
+        find_literal(regions, pattern, &mut results);
+    }
+
+    Ok(results.found)
+}
+
+fn find_literal(regions: &[(usize, usize)], pattern: &str, results: &mut Results) {
+    let text = results.text;
+    let folded: Vec<char> = pattern.chars().flat_map(char::to_lowercase).collect();
+
+    for &(region_start, region_end) in regions {
+        let region = &text[..region_end];
+        let mut at = region_start;
+        while at < region_end {
+            let end = if results.options.case_sensitive {
+                match region[at..].find(pattern) {
+                    Some(skipped) => {
+                        at += skipped;
+                        Some(at + pattern.len())
+                    }
+                    None => break,
+                }
+            } else {
+                match_end(&region[at..], &folded).map(|length| at + length)
+            };
+
+            match end {
+                Some(end) if results.accepts(at, end) => {
+                    if !results.push(at, end) {
+                        return;
+                    }
+                    at = end;
+                }
+                _ => at += text[at..].chars().next().map_or(1, char::len_utf8),
+            }
+        }
+    }
+}
+
+/// Length of the match with a lower-case pattern at the start of a text
+fn match_end(text: &str, folded: &[char]) -> Option<usize> {
+    let mut rest = folded.iter();
+    for (offset, ch) in text.char_indices() {
+        if rest.as_slice().is_empty() {
+            return Some(offset);
+        }
+        for lower in ch.to_lowercase() {
+            if rest.next() != Some(&lower) {
+                return None;
+            }
+        }
+    }
+    rest.as_slice().is_empty().then_some(text.len())
+}
+
+#[cfg(all(feature = "formats", feature = "std"))]
+fn find_regex(regions: &[(usize, usize)], pattern: &str, results: &mut Results) -> Result<()> {
+    let regex = regex::RegexBuilder::new(pattern)
+        .case_insensitive(!results.options.case_sensitive)
+        .build()
+        .map_err(|e| crate::core::EditorError::CommandFailed {
+            message: format!("Invalid regex pattern: {e}"),
+        })?;
+
+    for &(region_start, region_end) in regions {
+        for found in regex.find_iter(&results.text[region_start..region_end]) {
+            let (start, end) = (region_start + found.start(), region_start + found.end());
+            if results.accepts(start, end) && !results.push(start, end) {
+                return Ok(());
+            }
+        }
+    }
+    Ok(())
+}
+
+#[cfg(not(all(feature = "formats", feature = "std")))]
+fn find_regex(_regions: &[(usize, usize)], _pattern: &str, _results: &mut Results) -> Result<()> {
+    Err(crate::core::EditorError::CommandFailed {
+        message: "Regex search requires the 'formats' feature to be enabled".to_string(),
+    })
+}
+
+/// The matches found so far, and how far their lines have been counted
+struct Results<'t> {
+    text: &'t str,
+    options: &'t SearchOptions,
+    found: Vec<SearchResult<'static>>,
+    line: usize,
+    line_start: usize,
+}
+
+impl Results<'_> {
+    /// Whether a match is one the options ask for
+    fn accepts(&self, start: usize, end: usize) -> bool {
+        !self.options.whole_words
+            || !(self.text[..start].ends_with(is_word_char)
+                || self.text[end..].starts_with(is_word_char))
+    }
+
+    /// Add a match behind all others; tells whether there may be more
+    fn push(&mut self, start: usize, end: usize) -> bool {
+        while let Some(length) = self.text[self.line_start..start].find('\n') {
+            self.line += 1;
+            self.line_start += length + 1;
+        }
+        let line_end = self.text[self.line_start..]
+            .find('\n')
+            .map_or(self.text.len(), |length| self.line_start + length);
+
+        self.found.push(SearchResult {
+            start: Position::new(start),
+            end: Position::new(end),
+            text: Cow::Owned(self.text[start..end].to_string()),
+            context: Cow::Owned(self.text[self.line_start..line_end].to_string()),
+            line: self.line,
+            column: start - self.line_start,
+        });
+        self.options.max_results == 0 || self.found.len() < self.options.max_results
+    }
+}
+
+/// The parts of a text that a scope covers, in order
+fn regions(text: &str, scope: &SearchScope) -> Vec<(usize, usize)> {
+    match scope {
+        SearchScope::All => vec![(0, text.len())],
+        SearchScope::Range(range) => {
+            let mut start = range.start.offset;
+            while start < text.len() && !text.is_char_boundary(start) {
+                start += 1;
+            }
+            let mut end = range.end.offset.min(text.len());
+            while !text.is_char_boundary(end) {
+                end -= 1;
+            }
+            if start <= end {
+                vec![(start, end)]
+            } else {
+                Vec::new()
+            }
+        }
+        SearchScope::Lines { start, end } => {
+            let mut covered: Option<(usize, usize)> = None;
+            for (number, (from, line)) in lines(text).enumerate() {
+                if number >= *start && number <= *end {
+                    covered = Some((covered.map_or(from, |c| c.0), from + line.len()));
+                }
+            }
+            covered.into_iter().collect()
+        }
+        SearchScope::Sections(names) => {
+            let mut covered: Vec<(usize, usize)> = Vec::new();
+            let mut inside = false;
+            for (from, line) in lines(text) {
+                let header = line
+                    .trim()
+                    .strip_prefix('[')
+                    .and_then(|rest| rest.strip_suffix(']'));
+                let was_inside = inside;
+                if let Some(name) = header {
+                    inside = names.iter().any(|n| n == name);
+                }
+                if inside {
+                    let to = from + line.len();
+                    match covered.last_mut() {
+                        Some(last) if was_inside => last.1 = to,
+                        _ => covered.push((from, to)),
+                    }
+                }
+            }
+            covered
+        }
+    }
+}
+
+/// The lines of a text with the offsets at which they begin
+fn lines(text: &str) -> impl Iterator<Item = (usize, &str)> {
+    let mut from = 0;
+    text.split('\n').map(move |line| {
+        let start = from;
+        from += line.len() + 1;
+        (start, line)
+    })
+}
diff --git a/crates/ass-editor/utils/search/trait_impl.rs b/crates/ass-editor/utils/search/trait_impl.rs
index baa647f..0cd2f76 100644
--- a/crates/ass-editor/utils/search/trait_impl.rs
+++ b/crates/ass-editor/utils/search/trait_impl.rs
@@ -5,6 +5,7 @@
 
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult, SearchStats};
+use super::scan;
 use super::traits::DocumentSearch;
 use crate::core::{EditorDocument, Range, Result};
 
@@ -28,18 +29,15 @@ impl DocumentSearch for DocumentSearchImpl {
 
         #[cfg(feature = "search-index")]
         {
-            let words = self.extract_words(&text);
-
-            // Build FST index
-            let fst = self.build_fst(&words)?;
-            self.word_index = Some(fst);
-
             // Store word positions
             self.word_positions.clear();
-            for (word, positions) in words {
-                self.word_positions.insert(word.into_owned(), positions);
+            for (word, position) in scan::words(&text) {
+                self.word_positions.entry(word).or_default().push(position);
             }
 
+            // Build FST index
+            self.word_index = Some(self.build_fst()?);
+
             // Update statistics
             self.stats.index_size = self.word_positions.len() * 50; // Rough estimate
         }
@@ -76,19 +74,7 @@ impl DocumentSearch for DocumentSearchImpl {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-        let mut replaced = Vec::new();
-
-        // Apply replacements in reverse order to maintain position validity
-        for result in results.iter().rev() {
-            let range = Range::new(result.start, result.end);
-            document.delete(range)?;
-            document.insert(result.start, replacement)?;
-            replaced.push(result.clone());
-        }
-
-        replaced.reverse(); // Restore original order
-        Ok(replaced)
+        scan::replace_all(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
-- 
2.43.0


From 19b20708b0fd1a940b9ec68c481e85931fe0295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 71/94] fix: extensions may use the manager that calls them,
 and their events, commands and messages arrive

---
 crates/ass-editor/extensions/context.rs       |  42 ++----
 crates/ass-editor/extensions/manager.rs       |  84 ++++++++++-
 .../ass-editor/extensions/manager_access.rs   |  17 ++-
 .../extensions/manager_lifecycle.rs           |   8 +-
 .../ass-editor/extensions/manager_loading.rs  | 139 +++++++++---------
 5 files changed, 171 insertions(+), 119 deletions(-)

diff --git a/crates/ass-editor/extensions/context.rs b/crates/ass-editor/extensions/context.rs
index 47e3c72..2cb1c5c 100644
--- a/crates/ass-editor/extensions/context.rs
+++ b/crates/ass-editor/extensions/context.rs
@@ -76,12 +76,11 @@ impl ExtensionContext for EditorContext<'_> {
     }
 
     fn send_event(&mut self, _event: DocumentEvent) -> Result<()> {
-        // For now, we'll just log the event
-        // In a real implementation, this would use the event system
+        // That nobody listens is no fault of the extension
         #[cfg(feature = "std")]
-        {
-            eprintln!("Extension {} sent event: {:?}", self.extension_name, _event);
-        }
+        self.manager.with_inner(|inner| {
+            let _ = inner.event_tx.send(_event);
+        });
         Ok(())
     }
 
@@ -104,38 +103,23 @@ impl ExtensionContext for EditorContext<'_> {
         #[cfg(not(feature = "multi-thread"))]
         {
             // In single-threaded mode, update the shared config state
+            self.manager.set_config(key.clone(), value.clone());
             self.manager_mut_state.borrow_mut().insert(key, value);
         }
         Ok(())
     }
 
-    fn register_command(&mut self, _command: ExtensionCommand) -> Result<()> {
-        // For now, just acknowledge the command in both modes
-        // In a real implementation, this would register with a command system
-        #[cfg(feature = "std")]
-        {
-            eprintln!(
-                "Extension {} registered command: {}",
-                self.extension_name, _command.id
-            );
-        }
+    fn register_command(&mut self, command: ExtensionCommand) -> Result<()> {
+        self.manager.with_inner_mut(|inner| {
+            inner
+                .commands
+                .insert(command.id.clone(), (self.extension_name.clone(), command));
+        });
         Ok(())
     }
 
-    fn show_message(&mut self, _message: &str, _level: MessageLevel) -> Result<()> {
-        // Simple console output for now
-        #[cfg(feature = "std")]
-        {
-            match _level {
-                MessageLevel::Info => eprintln!("[INFO] {}: {}", self.extension_name, _message),
-                MessageLevel::Warning => eprintln!("[WARN] {}: {}", self.extension_name, _message),
-                MessageLevel::Error => eprintln!("[ERROR] {}: {}", self.extension_name, _message),
-                MessageLevel::Success => {
-                    eprintln!("[SUCCESS] {}: {}", self.extension_name, _message)
-                }
-            }
-        }
-        Ok(())
+    fn show_message(&mut self, message: &str, level: MessageLevel) -> Result<()> {
+        self.manager.show_message(message, level)
     }
 
     fn get_extension_data(&self, extension_name: &str, key: &str) -> Option<String> {
diff --git a/crates/ass-editor/extensions/manager.rs b/crates/ass-editor/extensions/manager.rs
index ebc50b5..a7b89cd 100644
--- a/crates/ass-editor/extensions/manager.rs
+++ b/crates/ass-editor/extensions/manager.rs
@@ -5,10 +5,12 @@
 
 use core::fmt;
 
+use crate::core::Result;
+
 #[cfg(feature = "std")]
 use crate::events::DocumentEvent;
 
-use super::command::{ExtensionCommand, ExtensionState};
+use super::command::{ExtensionCommand, ExtensionState, MessageLevel};
 use super::extension::{EditorExtension, MessageHandler};
 
 #[cfg(feature = "std")]
@@ -40,11 +42,32 @@ pub type EventSender = Sender<DocumentEvent>;
 #[cfg(not(feature = "std"))]
 pub type EventSender = (); // No-op for no_std environments
 
+/// What the manager calls and what may call back into the manager: it has a
+/// lock of its own, so that it is called without holding that of the manager
+#[cfg(feature = "multi-thread")]
+pub(super) type Callable<T> = Arc<Mutex<Box<T>>>;
+
+/// What the manager calls
+#[cfg(not(feature = "multi-thread"))]
+pub(super) type Callable<T> = Box<T>;
+
+/// Wrap what the manager calls
+#[cfg(feature = "multi-thread")]
+pub(super) fn callable<T: ?Sized>(called: Box<T>) -> Callable<T> {
+    Arc::new(Mutex::new(called))
+}
+
+/// Wrap what the manager calls
+#[cfg(not(feature = "multi-thread"))]
+pub(super) fn callable<T: ?Sized>(called: Box<T>) -> Callable<T> {
+    called
+}
+
 /// Extension manager for loading and managing extensions
 /// Internal storage for ExtensionManager data
 pub(super) struct ExtensionManagerInner {
     /// Loaded extensions
-    pub(super) extensions: HashMap<String, Box<dyn EditorExtension>>,
+    pub(super) extensions: HashMap<String, Callable<dyn EditorExtension>>,
 
     /// Extension states
     pub(super) extension_states: HashMap<String, ExtensionState>,
@@ -60,12 +83,10 @@ pub(super) struct ExtensionManagerInner {
 
     /// Event channel for sending events
     #[cfg(feature = "std")]
-    #[allow(dead_code)]
     pub(super) event_tx: EventSender,
 
     /// Message handler for user notifications
-    #[allow(dead_code)]
-    pub(super) message_handler: Box<dyn MessageHandler>,
+    pub(super) message_handler: Callable<dyn MessageHandler>,
 }
 
 /// Single unified ExtensionManager that is always thread-safe when multi-thread feature is enabled
@@ -158,6 +179,59 @@ impl ExtensionManager {
     }
 }
 
+impl ExtensionManager {
+    /// Call an extension, then record what it answered before it can be called
+    /// again; `None` if it is not loaded
+    pub(super) fn call_extension<A, R>(
+        &self,
+        extension_name: &str,
+        call: impl FnOnce(&mut dyn EditorExtension) -> A,
+        record: impl FnOnce(&mut ExtensionManagerInner, A) -> R,
+    ) -> Option<R> {
+        #[cfg(feature = "multi-thread")]
+        {
+            let extension =
+                self.with_inner(|inner| inner.extensions.get(extension_name).cloned())?;
+            let mut called = extension.lock();
+
+            // It may have been unloaded before its turn came
+            let loaded = self.with_inner(|inner| {
+                inner
+                    .extensions
+                    .get(extension_name)
+                    .is_some_and(|e| Arc::ptr_eq(e, &extension))
+            });
+            if !loaded {
+                return None;
+            }
+
+            let answer = call(called.as_mut());
+            Some(self.with_inner_mut(|inner| record(inner, answer)))
+        }
+        #[cfg(not(feature = "multi-thread"))]
+        {
+            self.with_inner_mut(|inner| {
+                let answer = call(inner.extensions.get_mut(extension_name)?.as_mut());
+                Some(record(inner, answer))
+            })
+        }
+    }
+
+    /// Show a message with the handler of this manager
+    pub(super) fn show_message(&self, message: &str, level: MessageLevel) -> Result<()> {
+        #[cfg(feature = "multi-thread")]
+        {
+            let handler = self.with_inner(|inner| inner.message_handler.clone());
+            let mut handler = handler.lock();
+            handler.show(message, level)
+        }
+        #[cfg(not(feature = "multi-thread"))]
+        {
+            self.with_inner_mut(|inner| inner.message_handler.show(message, level))
+        }
+    }
+}
+
 impl Default for ExtensionManager {
     fn default() -> Self {
         Self::new()
diff --git a/crates/ass-editor/extensions/manager_access.rs b/crates/ass-editor/extensions/manager_access.rs
index 5c69fe3..90da0c1 100644
--- a/crates/ass-editor/extensions/manager_access.rs
+++ b/crates/ass-editor/extensions/manager_access.rs
@@ -32,14 +32,15 @@ impl ExtensionManager {
                 message: format!("Command '{command_id}' not found"),
             })?;
 
-        self.with_inner_mut(|inner| {
-            if let Some(extension) = inner.extensions.get_mut(&extension_name) {
-                extension.execute_command(command_id, args, context)
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
-            }
+        self.call_extension(
+            &extension_name,
+            |extension| extension.execute_command(command_id, args, context),
+            |_, result| result,
+        )
+        .unwrap_or_else(|| {
+            Err(crate::core::EditorError::CommandFailed {
+                message: format!("Extension '{extension_name}' not found"),
+            })
         })
     }
 
diff --git a/crates/ass-editor/extensions/manager_lifecycle.rs b/crates/ass-editor/extensions/manager_lifecycle.rs
index ae84225..dc3437d 100644
--- a/crates/ass-editor/extensions/manager_lifecycle.rs
+++ b/crates/ass-editor/extensions/manager_lifecycle.rs
@@ -6,7 +6,7 @@
 use crate::core::{EditorDocument, Result};
 
 use super::context::{EditorContext, ExtensionContext};
-use super::manager::{ExtensionManager, ExtensionManagerInner};
+use super::manager::{callable, ExtensionManager, ExtensionManagerInner};
 
 #[cfg(feature = "std")]
 use super::extension::{MessageHandler, StdMessageHandler};
@@ -59,9 +59,9 @@ impl ExtensionManagerInner {
             #[cfg(feature = "std")]
             event_tx: tx,
             #[cfg(feature = "std")]
-            message_handler: Box::new(StdMessageHandler),
+            message_handler: callable(Box::new(StdMessageHandler)),
             #[cfg(not(feature = "std"))]
-            message_handler: Box::new(NoOpMessageHandler),
+            message_handler: callable(Box::new(NoOpMessageHandler)),
         }
     }
 }
@@ -96,7 +96,7 @@ impl ExtensionManager {
             config: HashMap::new(),
             extension_data: HashMap::new(),
             event_tx,
-            message_handler,
+            message_handler: callable(message_handler),
         };
 
         #[cfg(feature = "multi-thread")]
diff --git a/crates/ass-editor/extensions/manager_loading.rs b/crates/ass-editor/extensions/manager_loading.rs
index 2dd6d56..42dfca5 100644
--- a/crates/ass-editor/extensions/manager_loading.rs
+++ b/crates/ass-editor/extensions/manager_loading.rs
@@ -8,7 +8,7 @@ use crate::core::Result;
 use super::command::ExtensionState;
 use super::context::ExtensionContext;
 use super::extension::EditorExtension;
-use super::manager::ExtensionManager;
+use super::manager::{callable, ExtensionManager};
 
 #[cfg(not(feature = "std"))]
 use alloc::{boxed::Box, format, string::ToString};
@@ -19,27 +19,27 @@ impl ExtensionManager {
         let extension_name = extension.info().name.clone();
         let dependencies = extension.info().dependencies.clone();
 
-        // Check for dependency conflicts
-        let has_deps = self.with_inner(|inner| {
-            dependencies
+        self.with_inner_mut(|inner| {
+            // Check for dependency conflicts
+            let has_deps = dependencies
                 .iter()
-                .all(|dep| inner.extension_states.contains_key(dep))
-        });
+                .all(|dep| inner.extensions.contains_key(dep));
 
-        if !has_deps {
-            return Err(crate::core::EditorError::CommandFailed {
-                message: format!("Extension '{extension_name}' has unmet dependencies"),
-            });
-        }
+            if !has_deps {
+                return Err(crate::core::EditorError::CommandFailed {
+                    message: format!("Extension '{extension_name}' has unmet dependencies"),
+                });
+            }
 
-        self.with_inner_mut(|inner| {
             if inner.extensions.contains_key(&extension_name) {
                 return Err(crate::core::EditorError::CommandFailed {
                     message: format!("Extension '{extension_name}' is already loaded"),
                 });
             }
 
-            inner.extensions.insert(extension_name.clone(), extension);
+            inner
+                .extensions
+                .insert(extension_name.clone(), callable(extension));
             inner
                 .extension_states
                 .insert(extension_name.clone(), ExtensionState::Uninitialized);
@@ -53,39 +53,34 @@ impl ExtensionManager {
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::Initializing);
-
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                match extension.initialize(context) {
-                    Ok(()) => {
-                        inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Active);
-
-                        // Register commands
-                        for command in extension.commands() {
-                            inner
-                                .commands
-                                .insert(command.id.clone(), (extension_name.to_string(), command));
-                        }
-
-                        Ok(())
-                    }
-                    Err(e) => {
-                        inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Error);
-                        Err(e)
-                    }
+        self.set_loaded_state(extension_name, ExtensionState::Initializing);
+
+        self.call_extension(
+            extension_name,
+            |extension| extension.initialize(context).map(|()| extension.commands()),
+            |inner, initialized| {
+                let state = match initialized {
+                    Ok(_) => ExtensionState::Active,
+                    Err(_) => ExtensionState::Error,
+                };
+                inner
+                    .extension_states
+                    .insert(extension_name.to_string(), state);
+
+                // Register commands
+                for command in initialized? {
+                    inner
+                        .commands
+                        .insert(command.id.clone(), (extension_name.to_string(), command));
                 }
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
-            }
+
+                Ok(())
+            },
+        )
+        .unwrap_or_else(|| {
+            Err(crate::core::EditorError::CommandFailed {
+                message: format!("Extension '{extension_name}' not found"),
+            })
         })
     }
 
@@ -95,44 +90,42 @@ impl ExtensionManager {
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        // Shutdown the extension first
-        self.shutdown_extension(extension_name, context)?;
+        self.set_loaded_state(extension_name, ExtensionState::ShuttingDown);
 
-        self.with_inner_mut(|inner| {
-            // Remove the extension
-            inner.extensions.remove(extension_name);
-            inner.extension_states.remove(extension_name);
+        let unloaded: Option<Result<()>> = self.call_extension(
+            extension_name,
+            // Shutdown the extension first
+            |extension| extension.shutdown(context),
+            |inner, shut_down| {
+                shut_down?;
 
-            // Remove commands
-            inner
-                .commands
-                .retain(|_, (ext_name, _)| ext_name != extension_name);
+                // Remove the extension
+                inner.extensions.remove(extension_name);
+                inner.extension_states.remove(extension_name);
 
-            // Remove extension data
+                // Remove commands
+                inner
+                    .commands
+                    .retain(|_, (ext_name, _)| ext_name != extension_name);
+                Ok(())
+            },
+        );
+        unloaded.unwrap_or(Ok(()))?;
+
+        // Remove extension data
+        self.with_inner_mut(|inner| {
             inner.extension_data.remove(extension_name);
         });
 
         Ok(())
     }
 
-    /// Shutdown an extension
-    fn shutdown_extension(
-        &mut self,
-        extension_name: &str,
-        context: &mut dyn ExtensionContext,
-    ) -> Result<()> {
+    /// Set the state of an extension that is loaded
+    fn set_loaded_state(&self, extension_name: &str, state: ExtensionState) {
         self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::ShuttingDown);
-
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                extension.shutdown(context)?;
-                inner
-                    .extension_states
-                    .insert(extension_name.to_string(), ExtensionState::Shutdown);
+            if let Some(current) = inner.extension_states.get_mut(extension_name) {
+                *current = state;
             }
-            Ok(())
-        })
+        });
     }
 }
-- 
2.43.0


From e75ef67c174d6f8c05587fe9dc4d59a258686f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 72/94] fix: completion takes any cursor position, and only the
 block it is in

---
 .../extensions/builtin/auto_complete/completions.rs    |  3 ++-
 .../extensions/builtin/auto_complete/context.rs        |  9 ++++++++-
 .../extensions/builtin/auto_complete/tags.rs           | 10 ++++++----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
index 018e0f8..662f31d 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
@@ -25,7 +25,8 @@ impl AutoCompleteExtension {
         ];
 
         let prefix = if context.line.starts_with('[') {
-            &context.line[1..context.column.min(context.line.len())]
+            // A cursor before the bracket has nothing typed before it
+            context.line.get(1..context.column).unwrap_or("")
         } else {
             ""
         };
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/context.rs b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
index f5e67bb..be92466 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/context.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
@@ -18,7 +18,13 @@ impl AutoCompleteExtension {
         position: Position,
     ) -> Result<CompletionContext> {
         let content = document.text();
-        let offset = position.offset;
+
+        // A position past the end or inside a character counts as the nearest
+        // character boundary before it
+        let mut offset = position.offset.min(content.len());
+        while !content.is_char_boundary(offset) {
+            offset -= 1;
+        }
 
         // Find current line
         let line_start = content[..offset].rfind('\n').map(|p| p + 1).unwrap_or(0);
@@ -26,6 +32,7 @@ impl AutoCompleteExtension {
             .find('\n')
             .map(|p| offset + p)
             .unwrap_or(content.len());
+        let line_end = offset + content[offset..line_end].trim_end_matches('\r').len();
 
         let line = content[line_start..line_end].to_string();
         let column = offset - line_start;
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/tags.rs b/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
index 6e8522a..1855375 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
@@ -65,10 +65,12 @@ impl AutoCompleteExtension {
             tag
         } else {
             // Look for backslash prefix
-            context.line[..context.column]
-                .rfind('\\')
-                .map(|pos| &context.line[pos + 1..context.column])
-                .unwrap_or("")
+            // Only a backslash of the block the cursor is in starts a tag
+            let before_cursor = &context.line[..context.column];
+            let block = before_cursor
+                .rfind('{')
+                .map_or(before_cursor, |open| &before_cursor[open..]);
+            block.rfind('\\').map_or("", |pos| &block[pos + 1..])
         };
 
         tags.into_iter()
-- 
2.43.0


From 75c0dd61ac29934cc584a3940d232ad5f4d84744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 73/94] fix: highlighting follows edits, line endings and
 leading spaces

---
 .../builtin/syntax_highlight/document.rs      | 20 ++++++++++++-------
 .../builtin/syntax_highlight/editor_ext.rs    |  3 +++
 .../builtin/syntax_highlight/events.rs        |  2 +-
 .../builtin/syntax_highlight/extension.rs     |  4 ++--
 .../builtin/syntax_highlight/sections.rs      |  5 +++--
 5 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
index e210733..0831375 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
@@ -13,15 +13,21 @@ impl SyntaxHighlightExtension {
         let doc_id = document.id();
 
         // Check cache
-        if let Some(cached_tokens) = self.token_cache.get(doc_id) {
-            return Ok(cached_tokens.clone());
+        if let Some((cached_content, cached_tokens)) = self.token_cache.get(doc_id) {
+            if *cached_content == content {
+                return Ok(cached_tokens.clone());
+            }
         }
 
         let mut tokens = Vec::new();
         let mut current_section = None;
-        let mut line_start = 0;
+        let mut next_line_start = 0;
 
-        for line in content.lines() {
+        for full_line in content.split_inclusive('\n') {
+            let line_start = next_line_start;
+            next_line_start += full_line.len();
+            let line = full_line.strip_suffix('\n').unwrap_or(full_line);
+            let line = line.strip_suffix('\r').unwrap_or(line);
             let line_range = Range::new(
                 Position::new(line_start),
                 Position::new(line_start + line.len()),
@@ -75,16 +81,16 @@ impl SyntaxHighlightExtension {
                 }
             }
 
-            line_start += line.len() + 1; // +1 for newline
-
             // Check token limit
             if self.config.max_tokens > 0 && tokens.len() >= self.config.max_tokens {
+                tokens.truncate(self.config.max_tokens);
                 break;
             }
         }
 
         // Cache the tokens
-        self.token_cache.insert(doc_id.to_string(), tokens.clone());
+        self.token_cache
+            .insert(doc_id.to_string(), (content, tokens.clone()));
 
         Ok(tokens)
     }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
index a96d08a..d5e3ba9 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/editor_ext.rs
@@ -42,6 +42,9 @@ impl EditorExtension for SyntaxHighlightExtension {
             }
         }
 
+        // Tokens made under another configuration no longer apply
+        self.clear_cache();
+
         context.show_message("Syntax highlighting initialized", MessageLevel::Info)?;
         Ok(())
     }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/events.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/events.rs
index 2721a3c..651add7 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/events.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/events.rs
@@ -51,7 +51,7 @@ impl SyntaxHighlightExtension {
 
         // Tokenize fields before text
         if let Some(text_offset) = text_start {
-            let pre_text = &fields_text[..text_offset];
+            let pre_text = &fields_text[..text_offset - 1];
             let mut field_start = fields_start;
 
             for (i, field) in pre_text.split(',').enumerate() {
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
index b5d76f3..b8e9567 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
@@ -16,8 +16,8 @@ use std::collections::HashMap;
 pub struct SyntaxHighlightExtension {
     pub(super) info: ExtensionInfo,
     pub(super) state: ExtensionState,
-    /// Cached tokens for performance
-    pub(super) token_cache: HashMap<String, Vec<HighlightToken>>,
+    /// Cached tokens for performance, with the content they describe
+    pub(super) token_cache: HashMap<String, (String, Vec<HighlightToken>)>,
     /// Configuration
     pub(super) config: SyntaxHighlightConfig,
 }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
index ba1242a..10cab61 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
@@ -84,8 +84,9 @@ impl SyntaxHighlightExtension {
         });
 
         // Parse style fields
-        let fields = line[6..].trim_start().split(',');
-        let mut field_start = line_start + 6;
+        let style_fields = line[6..].trim_start();
+        let fields = style_fields.split(',');
+        let mut field_start = line_start + line.len() - style_fields.len();
 
         for (i, field) in fields.enumerate() {
             let field_len = field.len();
-- 
2.43.0


From 94d72cd5bd74cd8791fe559733716689027cecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 74/94] fix: embedded fonts and graphics keep their bytes, and
 editing them touches only them

---
 .../commands/fonts_graphics_commands/add.rs   |  99 +---------
 .../commands/fonts_graphics_commands/clear.rs |  60 +-----
 .../fonts_graphics_commands/embedded.rs       | 183 ++++++++++++++++++
 .../fonts_graphics_commands/encoding.rs       |  27 ++-
 .../commands/fonts_graphics_commands/list.rs  |  56 +-----
 .../commands/fonts_graphics_commands/mod.rs   |   1 +
 .../fonts_graphics_commands/remove.rs         |  84 +-------
 7 files changed, 215 insertions(+), 295 deletions(-)
 create mode 100644 crates/ass-editor/commands/fonts_graphics_commands/embedded.rs

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 61053e1..f579db1 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -1,15 +1,12 @@
 //! Commands for adding embedded fonts and graphics to ASS documents
 
+use super::embedded::{FONTS, GRAPHICS};
 use super::uuencode_data;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to add an embedded font to the ASS document
 ///
@@ -44,50 +41,7 @@ impl AddFontCommand {
 
 impl EditorCommand for AddFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-
-        let insert_pos = if let Some(section_start) = fonts_section {
-            // Find the end of the Fonts section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Fonts section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Fonts]\n")?;
-            insert_pos + "[Fonts]\n".len()
-        };
-
-        // Build font entry
-        let filename = &self.filename;
-        let mut font_entry = format!("fontname: {filename}\n");
-        for line in &self.data_lines {
-            font_entry.push_str(line);
-            font_entry.push('\n');
-        }
-
-        // Insert font data
-        document.insert_raw(Position::new(insert_pos), &font_entry)?;
-
-        Ok(CommandResult::success_with_change(
-            Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + font_entry.len()),
-            ),
-            Position::new(insert_pos + font_entry.len()),
-        ))
+        FONTS.add(document, &self.filename, &self.data_lines)
     }
 
     fn description(&self) -> &str {
@@ -134,50 +88,7 @@ impl AddGraphicCommand {
 
 impl EditorCommand for AddGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-
-        let insert_pos = if let Some(section_start) = graphics_section {
-            // Find the end of the Graphics section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Graphics section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Graphics]\n")?;
-            insert_pos + "[Graphics]\n".len()
-        };
-
-        // Build graphic entry
-        let filename = &self.filename;
-        let mut graphic_entry = format!("filename: {filename}\n");
-        for line in &self.data_lines {
-            graphic_entry.push_str(line);
-            graphic_entry.push('\n');
-        }
-
-        // Insert graphic data
-        document.insert_raw(Position::new(insert_pos), &graphic_entry)?;
-
-        Ok(CommandResult::success_with_change(
-            Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + graphic_entry.len()),
-            ),
-            Position::new(insert_pos + graphic_entry.len()),
-        ))
+        GRAPHICS.add(document, &self.filename, &self.data_lines)
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
index 85a3ed5..61292f0 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
@@ -1,10 +1,8 @@
 //! Commands for clearing embedded fonts and graphics sections in ASS documents
 
+use super::embedded::{FONTS, GRAPHICS};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
-
-#[cfg(not(feature = "std"))]
-use alloc::string::ToString;
+use crate::core::{EditorDocument, Result};
 
 /// Command to clear all embedded fonts from the ASS document
 ///
@@ -27,32 +25,7 @@ impl Default for ClearFontsCommand {
 
 impl EditorCommand for ClearFontsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        if let Some(fonts_section) = content.find("[Fonts]") {
-            let header_end = content[fonts_section..]
-                .find('\n')
-                .map(|pos| fonts_section + pos + 1)
-                .unwrap_or(fonts_section + "[Fonts]".len());
-
-            let section_end = content[fonts_section..]
-                .find("\n[")
-                .map(|pos| fonts_section + pos)
-                .unwrap_or(content.len());
-
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
-
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
-                ));
-            }
-        }
-
-        Ok(CommandResult::success())
+        FONTS.clear(document)
     }
 
     fn description(&self) -> &str {
@@ -85,32 +58,7 @@ impl Default for ClearGraphicsCommand {
 
 impl EditorCommand for ClearGraphicsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        if let Some(graphics_section) = content.find("[Graphics]") {
-            let header_end = content[graphics_section..]
-                .find('\n')
-                .map(|pos| graphics_section + pos + 1)
-                .unwrap_or(graphics_section + "[Graphics]".len());
-
-            let section_end = content[graphics_section..]
-                .find("\n[")
-                .map(|pos| graphics_section + pos)
-                .unwrap_or(content.len());
-
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
-
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
-                ));
-            }
-        }
-
-        Ok(CommandResult::success())
+        GRAPHICS.clear(document)
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs b/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs
new file mode 100644
index 0000000..b595557
--- /dev/null
+++ b/crates/ass-editor/commands/fonts_graphics_commands/embedded.rs
@@ -0,0 +1,183 @@
+//! Shared access to the files embedded in `[Fonts]` and `[Graphics]` sections
+
+use crate::commands::CommandResult;
+use crate::core::document::{whole_line, SectionText};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use ass_core::parser::Section;
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// A kind of embedded file
+pub(super) struct Embedded {
+    /// Name of the section that holds the files
+    section: &'static str,
+    /// Key of the line that starts a file
+    key: &'static str,
+}
+
+/// Files of the `[Fonts]` section
+pub(super) const FONTS: Embedded = Embedded {
+    section: "Fonts",
+    key: "fontname",
+};
+
+/// Files of the `[Graphics]` section
+pub(super) const GRAPHICS: Embedded = Embedded {
+    section: "Graphics",
+    key: "filename",
+};
+
+impl Embedded {
+    /// Names and places of the embedded files, in order
+    fn files(&self, document: &EditorDocument) -> Result<Vec<(String, Range)>> {
+        document.parse_script_with(|script| {
+            let mut files = Vec::new();
+            for section in script.sections() {
+                match section {
+                    Section::Fonts(fonts) if self.section == "Fonts" => {
+                        files.extend(fonts.iter().map(|font| (font.filename, font.span)));
+                    }
+                    Section::Graphics(graphics) if self.section == "Graphics" => {
+                        files.extend(graphics.iter().map(|file| (file.filename, file.span)));
+                    }
+                    _ => {}
+                }
+            }
+            files
+                .into_iter()
+                .map(|(name, span)| {
+                    let range = Range::new(Position::new(span.start), Position::new(span.end));
+                    (name.to_string(), range)
+                })
+                .collect()
+        })
+    }
+
+    /// Names of the embedded files
+    pub(super) fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
+        let files = self.files(document)?;
+        Ok(files.into_iter().map(|(name, _)| name).collect())
+    }
+
+    /// Add a file at the end of the section, which is created if missing
+    pub(super) fn add(
+        &self,
+        document: &mut EditorDocument,
+        filename: &str,
+        data_lines: &[String],
+    ) -> Result<CommandResult> {
+        let breaks_line = |text: &str| text.contains(['\n', '\r']);
+        if filename.trim().is_empty()
+            || breaks_line(filename)
+            || data_lines
+                .iter()
+                .any(|line| breaks_line(line) || self.ends_data(line))
+        {
+            return Err(EditorError::command_failed(format!(
+                "Not data to embed as {filename}"
+            )));
+        }
+
+        let mut entry = format!("{}: {filename}", self.key);
+        for line in data_lines {
+            entry.push('\n');
+            entry.push_str(line);
+        }
+
+        let content = document.text();
+        let inserted = match SectionText::find(&content, &[self.section]) {
+            Some(section) => {
+                let offset = Self::held_end(&content, &section);
+                document.insert_line(offset, &entry)?
+            }
+            None => {
+                let header = self.section;
+                document.insert_line(content.len(), &format!("[{header}]\n{entry}"))?
+            }
+        };
+        Ok(CommandResult::success_with_change(inserted, inserted.end))
+    }
+
+    /// End of what a section holds, before the empty lines that set the next apart
+    fn held_end(content: &str, section: &SectionText) -> usize {
+        let held = content[section.body..section.end].trim_end();
+        if held.is_empty() {
+            return section.body;
+        }
+        let end = section.body + held.len();
+        content[end..section.end]
+            .find('\n')
+            .map_or(section.end, |n| end + n + 1)
+    }
+
+    /// Check whether a line would not be read as data of the file
+    fn ends_data(&self, line: &str) -> bool {
+        let line = line.trim();
+        line.is_empty()
+            || line.starts_with('[')
+            || line == "#"
+            || line.starts_with("# ")
+            || line
+                .strip_prefix(self.key)
+                .is_some_and(|rest| rest.trim_start().starts_with(':'))
+    }
+
+    /// Remove the files of a name
+    pub(super) fn remove(
+        &self,
+        document: &mut EditorDocument,
+        filename: &str,
+    ) -> Result<CommandResult> {
+        if SectionText::find(&document.text(), &[self.section]).is_none() {
+            return Err(EditorError::command_failed(format!(
+                "No [{}] section found",
+                self.section
+            )));
+        }
+        let places = self
+            .files(document)?
+            .into_iter()
+            .filter(|(name, _)| name == filename.trim())
+            .map(|(_, range)| range)
+            .collect();
+        Self::delete(document, places)
+    }
+
+    /// Remove all files, leaving the section headers
+    pub(super) fn clear(&self, document: &mut EditorDocument) -> Result<CommandResult> {
+        let content = document.text();
+        let places = SectionText::all(&content)
+            .into_iter()
+            .filter(|section| section.name == self.section)
+            .map(|section| {
+                let end = Self::held_end(&content, &section);
+                Range::new(Position::new(section.body), Position::new(end))
+            })
+            .filter(|range| !range.is_empty())
+            .collect();
+        Self::delete(document, places)
+    }
+
+    /// Delete ranges that are in order and do not overlap
+    fn delete(document: &mut EditorDocument, places: Vec<Range>) -> Result<CommandResult> {
+        let Some(first) = places.first() else {
+            return Ok(CommandResult::success());
+        };
+        let mut start = first.start;
+        for range in places.iter().rev() {
+            let content = document.text();
+            let line = whole_line(&content, range.start.offset, range.start.offset);
+            start = Position::new(line.start.offset.min(range.start.offset));
+            document.delete(Range::new(start, range.end))?;
+        }
+        Ok(CommandResult::success_with_change(
+            Range::new(start, start),
+            start,
+        ))
+    }
+}
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs b/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
index 1cf2c6e..1f4af4c 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
@@ -28,20 +28,19 @@ pub(super) fn uuencode_data(filename: &str, data: &[u8]) -> Vec<String> {
                 bytes[i] = byte;
             }
 
-            // Convert 3 bytes to 4 UU-encoded characters
-            encoded.push((32 + (bytes[0] >> 2)) as char);
-            encoded.push((32 + (((bytes[0] & 0x03) << 4) | (bytes[1] >> 4))) as char);
-
-            if group.len() > 1 {
-                encoded.push((32 + (((bytes[1] & 0x0F) << 2) | (bytes[2] >> 6))) as char);
-            } else {
-                encoded.push((32 + ((bytes[1] & 0x0F) << 2)) as char);
-            }
-
-            if group.len() > 2 {
-                encoded.push((32 + (bytes[2] & 0x3F)) as char);
-            } else if group.len() > 1 {
-                encoded.push(' ');
+            // Convert 3 bytes to 4 UU-encoded characters, with '`' for zero: spaces
+            // would be trimmed, or make the line look like a comment
+            for value in [
+                bytes[0] >> 2,
+                ((bytes[0] & 0x03) << 4) | (bytes[1] >> 4),
+                ((bytes[1] & 0x0F) << 2) | (bytes[2] >> 6),
+                bytes[2] & 0x3F,
+            ] {
+                encoded.push(if value == 0 {
+                    '`'
+                } else {
+                    (32 + value) as char
+                });
             }
         }
 
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/list.rs b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
index b86b9cd..ff50e9a 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/list.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
@@ -1,12 +1,10 @@
 //! Commands for listing embedded fonts and graphics in ASS documents
 
+use super::embedded::{FONTS, GRAPHICS};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to list all embedded fonts in the ASS document
 ///
@@ -22,30 +20,7 @@ impl ListFontsCommand {
 
     /// Execute and return list of font filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
-        let content = document.text();
-
-        // Find [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-        if fonts_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = fonts_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut fonts = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("fontname: ") {
-                fonts.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(fonts)
+        FONTS.list(document)
     }
 }
 
@@ -69,30 +44,7 @@ impl ListGraphicsCommand {
 
     /// Execute and return list of graphic filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
-        let content = document.text();
-
-        // Find [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-        if graphics_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = graphics_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut graphics = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("filename: ") {
-                graphics.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(graphics)
+        GRAPHICS.list(document)
     }
 }
 
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/mod.rs b/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
index bcd7227..fb7cebe 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
@@ -5,6 +5,7 @@
 
 mod add;
 mod clear;
+mod embedded;
 mod encoding;
 mod list;
 mod remove;
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
index 6957e6b..aba298d 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
@@ -1,13 +1,11 @@
 //! Commands for removing embedded fonts and graphics from ASS documents
 
+use super::embedded::{FONTS, GRAPHICS};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::string::String;
 
 /// Command to remove an embedded font from the ASS document
 ///
@@ -27,43 +25,7 @@ impl RemoveFontCommand {
 
 impl EditorCommand for RemoveFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        let fonts_section = content
-            .find("[Fonts]")
-            .ok_or_else(|| EditorError::command_failed("No [Fonts] section found"))?;
-
-        // Find the end of the Fonts section
-        let section_end = content[fonts_section..]
-            .find("\n[")
-            .map(|pos| fonts_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the font entry
-        let filename = &self.filename;
-        let search_pattern = format!("fontname: {filename}");
-        let section_content = &content[fonts_section..section_end];
-
-        if let Some(font_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = fonts_section + font_pos;
-
-            // Find the end of this font's data (next fontname: or section end)
-            let font_end = content[absolute_pos..]
-                .find("\nfontname:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(font_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
-        }
+        FONTS.remove(document, &self.filename)
     }
 
     fn description(&self) -> &str {
@@ -93,43 +55,7 @@ impl RemoveGraphicCommand {
 
 impl EditorCommand for RemoveGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        let graphics_section = content
-            .find("[Graphics]")
-            .ok_or_else(|| EditorError::command_failed("No [Graphics] section found"))?;
-
-        // Find the end of the Graphics section
-        let section_end = content[graphics_section..]
-            .find("\n[")
-            .map(|pos| graphics_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the graphic entry
-        let filename = &self.filename;
-        let search_pattern = format!("filename: {filename}");
-        let section_content = &content[graphics_section..section_end];
-
-        if let Some(graphic_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = graphics_section + graphic_pos;
-
-            // Find the end of this graphic's data (next filename: or section end)
-            let graphic_end = content[absolute_pos..]
-                .find("\nfilename:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(graphic_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
-        }
+        GRAPHICS.remove(document, &self.filename)
     }
 
     fn description(&self) -> &str {
-- 
2.43.0


From 97967106714d600289f57f57c2ab530650fd50f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 75/94] fix: a validation result never describes a text that
 undo or redo replaced

---
 crates/ass-editor/core/document/editing_raw.rs  | 2 ++
 crates/ass-editor/core/document/grouped_edit.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index f74d22e..f7816af 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -63,6 +63,7 @@ impl EditorDocument {
         }
 
         self.modified = true;
+        self.validator.clear_cache();
         Ok(())
     }
 
@@ -84,6 +85,7 @@ impl EditorDocument {
         }
 
         self.modified = true;
+        self.validator.clear_cache();
         Ok(())
     }
 
diff --git a/crates/ass-editor/core/document/grouped_edit.rs b/crates/ass-editor/core/document/grouped_edit.rs
index f197925..d2a0548 100644
--- a/crates/ass-editor/core/document/grouped_edit.rs
+++ b/crates/ass-editor/core/document/grouped_edit.rs
@@ -89,6 +89,7 @@ impl EditorDocument {
         {
             self.text_content = String::from(text);
         }
+        self.validator.clear_cache();
     }
 }
 
-- 
2.43.0


From 9487cb9947312905db2c210c91cef7a2089b8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 76/94] fix: the limit on validation issues drops the least
 severe ones

---
 .../utils/validator/core_validation.rs           | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/utils/validator/core_validation.rs b/crates/ass-editor/utils/validator/core_validation.rs
index 19ef7cc..c7e26a2 100644
--- a/crates/ass-editor/utils/validator/core_validation.rs
+++ b/crates/ass-editor/utils/validator/core_validation.rs
@@ -74,10 +74,7 @@ impl LazyValidator {
         // Apply severity threshold filter
         issues.retain(|issue| issue.severity >= self.config.severity_threshold);
 
-        // Apply max issues limit
-        if self.config.max_issues > 0 && issues.len() > self.config.max_issues {
-            issues.truncate(self.config.max_issues);
-        }
+        self.limit_issues(&mut issues);
 
         Ok(issues)
     }
@@ -99,12 +96,17 @@ impl LazyValidator {
         // Apply severity threshold filter
         issues.retain(|issue| issue.severity >= self.config.severity_threshold);
 
-        // Apply max issues limit
+        self.limit_issues(&mut issues);
+
+        Ok(issues)
+    }
+
+    /// Keep at most the configured number of issues, the most severe ones first
+    fn limit_issues(&self, issues: &mut Vec<ValidationIssue>) {
         if self.config.max_issues > 0 && issues.len() > self.config.max_issues {
+            issues.sort_by(|a, b| b.severity.cmp(&a.severity));
             issues.truncate(self.config.max_issues);
         }
-
-        Ok(issues)
     }
 
     /// Add basic structural checks that work regardless of analysis feature
-- 
2.43.0


From 36b2d60e67e6fbdc3556eb051bc98da6cfce17ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 77/94] fix: validation looks for sections, not for their names
 anywhere in the text

---
 .../utils/validator/core_validation.rs        | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/utils/validator/core_validation.rs b/crates/ass-editor/utils/validator/core_validation.rs
index c7e26a2..c80c88d 100644
--- a/crates/ass-editor/utils/validator/core_validation.rs
+++ b/crates/ass-editor/utils/validator/core_validation.rs
@@ -5,6 +5,8 @@
 
 use super::{LazyValidator, ValidationIssue, ValidationSeverity};
 use crate::core::{EditorDocument, Result};
+use ass_core::parser::ast::{Section, SectionType};
+use ass_core::parser::Script;
 
 #[cfg(feature = "analysis")]
 use ass_core::analysis::linting::IssueSeverity;
@@ -25,7 +27,7 @@ impl LazyValidator {
         let mut issues = Vec::new();
 
         // Parse and analyze with ass-core
-        document.parse_script_with(|script| {
+        let sections = document.parse_script_with(|script| {
             // Create ScriptAnalysis with our configuration
             match ScriptAnalysis::analyze_with_config(script, self.analysis_config.clone()) {
                 Ok(analysis) => {
@@ -66,10 +68,12 @@ impl LazyValidator {
                     ));
                 }
             }
+
+            Self::section_types(script)
         })?;
 
         // Add basic structural checks even with analysis feature
-        self.add_basic_checks(content, &mut issues);
+        self.add_basic_checks(content, &sections, &mut issues);
 
         // Apply severity threshold filter
         issues.retain(|issue| issue.severity >= self.config.severity_threshold);
@@ -84,14 +88,15 @@ impl LazyValidator {
     pub(super) fn validate_with_core(
         &self,
         content: &str,
-        _document: &EditorDocument,
+        document: &EditorDocument,
     ) -> Result<Vec<ValidationIssue>> {
         let mut issues = Vec::new();
 
         // Basic validation without core analysis
         // Note: We can't do full parsing validation without the analysis feature,
         // so we do basic structural checks only
-        self.add_basic_checks(content, &mut issues);
+        let sections = document.parse_script_with(Self::section_types)?;
+        self.add_basic_checks(content, &sections, &mut issues);
 
         // Apply severity threshold filter
         issues.retain(|issue| issue.severity >= self.config.severity_threshold);
@@ -101,6 +106,15 @@ impl LazyValidator {
         Ok(issues)
     }
 
+    /// Types of the sections a script has
+    fn section_types(script: &Script) -> Vec<SectionType> {
+        script
+            .sections()
+            .iter()
+            .map(Section::section_type)
+            .collect()
+    }
+
     /// Keep at most the configured number of issues, the most severe ones first
     fn limit_issues(&self, issues: &mut Vec<ValidationIssue>) {
         if self.config.max_issues > 0 && issues.len() > self.config.max_issues {
@@ -110,7 +124,12 @@ impl LazyValidator {
     }
 
     /// Add basic structural checks that work regardless of analysis feature
-    fn add_basic_checks(&self, content: &str, issues: &mut Vec<ValidationIssue>) {
+    fn add_basic_checks(
+        &self,
+        content: &str,
+        sections: &[SectionType],
+        issues: &mut Vec<ValidationIssue>,
+    ) {
         // Basic checks
         if content.is_empty() {
             issues.push(ValidationIssue::new(
@@ -120,7 +139,7 @@ impl LazyValidator {
             ));
         }
 
-        if !content.contains("[Script Info]") {
+        if !sections.contains(&SectionType::ScriptInfo) {
             issues.push(ValidationIssue::new(
                 ValidationSeverity::Warning,
                 "Missing [Script Info] section".to_string(),
@@ -128,7 +147,7 @@ impl LazyValidator {
             ));
         }
 
-        if !content.contains("[Events]") {
+        if !sections.contains(&SectionType::Events) {
             issues.push(ValidationIssue::new(
                 ValidationSeverity::Warning,
                 "Missing [Events] section".to_string(),
-- 
2.43.0


From 5401d80d98e0c83b00b71f0132eb80d585d42769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 78/94] fix: TertiaryColour and Actor columns are read, as they
 are written

---
 .../parser/sections/events/event_data.rs      |  5 ++---
 .../parser/sections/events/static_parser.rs   |  5 ++---
 crates/ass-core/parser/sections/mod.rs        | 22 +++++++++++++++++++
 .../parser/sections/styles/parse_internal.rs  |  5 ++---
 .../parser/sections/styles/parse_line.rs      |  5 ++---
 .../ass-editor/core/document/event_lines.rs   |  5 ++---
 .../ass-editor/core/document/style_lines.rs   |  5 ++---
 7 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/crates/ass-core/parser/sections/events/event_data.rs b/crates/ass-core/parser/sections/events/event_data.rs
index ca4f4a4..482ff75 100644
--- a/crates/ass-core/parser/sections/events/event_data.rs
+++ b/crates/ass-core/parser/sections/events/event_data.rs
@@ -9,6 +9,7 @@ use crate::parser::{
     ast::{Event, EventType},
     errors::{IssueCategory, IssueSeverity, ParseIssue},
     position_tracker::PositionTracker,
+    sections::column_index,
 };
 use alloc::{format, vec::Vec};
 
@@ -79,9 +80,7 @@ impl<'a> EventsParser<'a> {
         }
 
         let get_field = |name: &str| -> &'a str {
-            format
-                .iter()
-                .position(|&field| field.eq_ignore_ascii_case(name))
+            column_index(format, name)
                 .and_then(|idx| parts.get(idx))
                 .map_or("", |s| s.trim())
         };
diff --git a/crates/ass-core/parser/sections/events/static_parser.rs b/crates/ass-core/parser/sections/events/static_parser.rs
index 79dd9c9..c0b3ba9 100644
--- a/crates/ass-core/parser/sections/events/static_parser.rs
+++ b/crates/ass-core/parser/sections/events/static_parser.rs
@@ -8,6 +8,7 @@ use super::EventsParser;
 use crate::parser::{
     ast::{Event, EventType, Span},
     errors::ParseError,
+    sections::column_index,
 };
 use alloc::vec::Vec;
 
@@ -98,9 +99,7 @@ impl<'a> EventsParser<'a> {
         }
 
         let get_field = |name: &str| -> &'a str {
-            format
-                .iter()
-                .position(|&field| field.eq_ignore_ascii_case(name))
+            column_index(format, name)
                 .and_then(|idx| parts.get(idx))
                 .map_or("", |s| s.trim())
         };
diff --git a/crates/ass-core/parser/sections/mod.rs b/crates/ass-core/parser/sections/mod.rs
index e79635c..4682490 100644
--- a/crates/ass-core/parser/sections/mod.rs
+++ b/crates/ass-core/parser/sections/mod.rs
@@ -55,6 +55,28 @@ use crate::parser::ast::{Section, SectionType};
 use crate::parser::errors::{ParseError, ParseResult};
 use alloc::vec::Vec;
 
+/// Find the column of a format line that holds a field
+///
+/// Column names are compared without regard to case. `TertiaryColour` is the
+/// SSA name of the outline colour and `Actor` another name of an event's name.
+#[must_use]
+pub fn column_index<S: AsRef<str>>(format: &[S], field: &str) -> Option<usize> {
+    let position = |name: &str| {
+        format
+            .iter()
+            .position(|column| column.as_ref().eq_ignore_ascii_case(name))
+    };
+    position(field).or_else(|| {
+        if field.eq_ignore_ascii_case("OutlineColour") {
+            position("TertiaryColour")
+        } else if field.eq_ignore_ascii_case("Name") {
+            position("Actor")
+        } else {
+            None
+        }
+    })
+}
+
 /// Formats detected during initial parse
 #[derive(Clone, Debug)]
 pub struct SectionFormats<'a> {
diff --git a/crates/ass-core/parser/sections/styles/parse_internal.rs b/crates/ass-core/parser/sections/styles/parse_internal.rs
index 752a745..5fe0b6f 100644
--- a/crates/ass-core/parser/sections/styles/parse_internal.rs
+++ b/crates/ass-core/parser/sections/styles/parse_internal.rs
@@ -8,6 +8,7 @@ use crate::parser::{
     ast::Style,
     errors::{IssueCategory, IssueSeverity, ParseIssue},
     position_tracker::PositionTracker,
+    sections::column_index,
 };
 use alloc::{format, vec::Vec};
 
@@ -76,9 +77,7 @@ impl<'a> StylesParser<'a> {
         }
 
         let get_field = |name: &str| -> &'a str {
-            format
-                .iter()
-                .position(|&field| field.eq_ignore_ascii_case(name))
+            column_index(format, name)
                 .and_then(|idx| parts.get(idx))
                 .map_or("", |s| s.trim())
         };
diff --git a/crates/ass-core/parser/sections/styles/parse_line.rs b/crates/ass-core/parser/sections/styles/parse_line.rs
index b62cc8c..a4eeaec 100644
--- a/crates/ass-core/parser/sections/styles/parse_line.rs
+++ b/crates/ass-core/parser/sections/styles/parse_line.rs
@@ -7,6 +7,7 @@ use super::StylesParser;
 use crate::parser::{
     ast::{Span, Style},
     errors::ParseError,
+    sections::column_index,
 };
 use alloc::vec::Vec;
 
@@ -88,9 +89,7 @@ impl<'a> StylesParser<'a> {
         }
 
         let get_field = |name: &str| -> &'a str {
-            format
-                .iter()
-                .position(|&field| field.eq_ignore_ascii_case(name))
+            column_index(format, name)
                 .and_then(|idx| parts.get(idx))
                 .map_or("", |s| s.trim())
         };
diff --git a/crates/ass-editor/core/document/event_lines.rs b/crates/ass-editor/core/document/event_lines.rs
index 0edaa27..76ef469 100644
--- a/crates/ass-editor/core/document/event_lines.rs
+++ b/crates/ass-editor/core/document/event_lines.rs
@@ -7,6 +7,7 @@
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
 use ass_core::parser::ast::{EventType, Section};
+use ass_core::parser::sections::column_index;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -75,9 +76,7 @@ impl EventLine {
     }
 
     fn index_of(&self, column: &str) -> Option<usize> {
-        self.columns
-            .iter()
-            .position(|name| name.eq_ignore_ascii_case(column))
+        column_index(&self.columns, column)
             .filter(|&index| index < self.values.len())
     }
 }
diff --git a/crates/ass-editor/core/document/style_lines.rs b/crates/ass-editor/core/document/style_lines.rs
index 16c91e3..ec391f6 100644
--- a/crates/ass-editor/core/document/style_lines.rs
+++ b/crates/ass-editor/core/document/style_lines.rs
@@ -7,6 +7,7 @@
 use super::section_text::SectionText;
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
+use ass_core::parser::sections::column_index;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -78,9 +79,7 @@ impl StyleLine {
     }
 
     fn index_of(&self, column: &str) -> Option<usize> {
-        self.columns
-            .iter()
-            .position(|name| name.eq_ignore_ascii_case(column))
+        column_index(&self.columns, column)
             .filter(|&index| index < self.values.len())
     }
 }
-- 
2.43.0


From 2524316c75898e90673827fb5cac6aca57d897b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 79/94] fix: text in a script's embedded fonts is painted in
 them

The fonts a script brings along were loaded into the pipeline's font database
only: text was measured with them and painted with the system's. Shaped text was
also cached without regard for them, so that the next script's text of the same
words in the same family was measured in them too.
---
 crates/ass-renderer/src/backends/gpu/mod.rs   |  4 ++
 crates/ass-renderer/src/backends/mod.rs       |  5 ++
 .../src/backends/software/cache/blur_tile.rs  |  2 +-
 .../src/backends/software/cache/coverage.rs   |  4 +-
 .../src/backends/software/cache/mod.rs        | 11 ++++-
 .../ass-renderer/src/backends/software/mod.rs | 24 +++++++--
 .../src/backends/software/text/blur.rs        |  2 +-
 .../src/backends/software/text/prepare.rs     | 10 ++--
 crates/ass-renderer/src/pipeline/build/mod.rs | 26 +++++-----
 .../src/pipeline/build/position.rs            |  6 +--
 crates/ass-renderer/src/pipeline/build/run.rs | 10 ++--
 .../src/pipeline/build/text/mod.rs            |  6 +--
 .../ass-renderer/src/pipeline/build/wrap.rs   |  4 +-
 .../ass-renderer/src/pipeline/font_loader.rs  | 49 +++++++++++++++++++
 crates/ass-renderer/src/pipeline/mod.rs       |  5 ++
 .../ass-renderer/src/pipeline/shaping/mod.rs  |  1 +
 .../src/pipeline/shaping/shape.rs             | 47 ++++++++++++++++--
 crates/ass-renderer/src/renderer/mod.rs       | 15 ++++--
 18 files changed, 188 insertions(+), 43 deletions(-)

diff --git a/crates/ass-renderer/src/backends/gpu/mod.rs b/crates/ass-renderer/src/backends/gpu/mod.rs
index bfa7469..bdfa631 100644
--- a/crates/ass-renderer/src/backends/gpu/mod.rs
+++ b/crates/ass-renderer/src/backends/gpu/mod.rs
@@ -136,6 +136,10 @@ impl RenderBackend for GpuBackend {
         Ok(Box::new(SoftwarePipeline::new()))
     }
 
+    fn set_fonts(&mut self, fonts: &crate::pipeline::font_loader::FontSet) {
+        self.software.set_fonts(fonts);
+    }
+
     fn composite_layers(
         &mut self,
         layers: &[IntermediateLayer],
diff --git a/crates/ass-renderer/src/backends/mod.rs b/crates/ass-renderer/src/backends/mod.rs
index d4b901b..82c22f3 100644
--- a/crates/ass-renderer/src/backends/mod.rs
+++ b/crates/ass-renderer/src/backends/mod.rs
@@ -57,6 +57,11 @@ pub trait RenderBackend: Send + Sync {
     /// Create a pipeline for this backend
     fn create_pipeline(&self) -> Result<Box<dyn Pipeline>, RenderError>;
 
+    /// Use the fonts the layers to come are made for
+    fn set_fonts(&mut self, fonts: &crate::pipeline::font_loader::FontSet) {
+        let _ = fonts;
+    }
+
     /// Composite layers into final frame
     fn composite_layers(
         &mut self,
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index b6d2cf9..3d057f2 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -178,7 +178,7 @@ impl super::super::SoftwareBackend {
             return false;
         };
         let local = base_transform.post_translate(-data.x, -baseline_y);
-        let key = super::BlurTileKey::new(data, radius, data.color, local);
+        let key = super::BlurTileKey::new(data, self.fonts.key(), radius, data.color, local);
         let Some(tile) = super::BLUR_TILES.with(|c| c.borrow().get(&key).cloned()) else {
             return false;
         };
diff --git a/crates/ass-renderer/src/backends/software/cache/coverage.rs b/crates/ass-renderer/src/backends/software/cache/coverage.rs
index 3dd09fe..e16dcde 100644
--- a/crates/ass-renderer/src/backends/software/cache/coverage.rs
+++ b/crates/ass-renderer/src/backends/software/cache/coverage.rs
@@ -71,7 +71,7 @@ impl super::super::SoftwareBackend {
         baseline_y: f32,
     ) -> bool {
         let Some((key, outline, shadow, local, fill_color, karaoke_sweep)) =
-            super::coverage_key(data, base_transform, baseline_y)
+            super::coverage_key(data, self.fonts.key(), base_transform, baseline_y)
         else {
             return false;
         };
@@ -111,7 +111,7 @@ impl super::super::SoftwareBackend {
         baseline_y: f32,
     ) -> bool {
         let Some((key, outline, shadow, local, fill_color, karaoke_sweep)) =
-            super::coverage_key(data, base_transform, baseline_y)
+            super::coverage_key(data, self.fonts.key(), base_transform, baseline_y)
         else {
             return false;
         };
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index 783e03f..5e136ad 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -29,6 +29,7 @@ mod coverage;
 struct RunCoverageKey {
     text: String,
     font: String,
+    fonts: Option<u64>,
     size: u32,
     spacing: u32,
     bold: bool,
@@ -49,6 +50,7 @@ struct RunCoverageKey {
 pub(super) struct BlurTileKey {
     pub(super) text: String,
     pub(super) font: String,
+    pub(super) fonts: Option<u64>,
     pub(super) size: u32,
     pub(super) spacing: u32,
     pub(super) bold: bool,
@@ -62,10 +64,12 @@ pub(super) struct BlurTileKey {
 
 #[cfg(not(feature = "nostd"))]
 impl BlurTileKey {
-    /// The key of a layer's blurred picture: `radius` of the blur, `fill` its
-    /// colour, `local` the transform of the glyphs about the layer's anchor.
+    /// The key of a layer's blurred picture: `fonts` tells the fonts of its script,
+    /// `radius` is that of the blur, `fill` its colour, `local` the transform of the
+    /// glyphs about the layer's anchor.
     pub(super) fn new(
         data: &crate::pipeline::TextData,
+        fonts: Option<u64>,
         radius: f32,
         fill: [u8; 4],
         local: Transform,
@@ -75,6 +79,7 @@ impl BlurTileKey {
         let mut key = Self {
             text: data.text.clone(),
             font: data.font_family.clone(),
+            fonts,
             size: data.font_size.to_bits(),
             spacing: data.spacing.to_bits(),
             bold: false,
@@ -192,6 +197,7 @@ std::thread_local! {
 #[allow(clippy::type_complexity)]
 fn coverage_key(
     data: &crate::pipeline::TextData,
+    fonts: Option<u64>,
     base_transform: Transform,
     baseline_y: f32,
 ) -> Option<(
@@ -258,6 +264,7 @@ fn coverage_key(
     let key = RunCoverageKey {
         text: data.text.clone(),
         font: data.font_family.clone(),
+        fonts,
         size: data.font_size.to_bits(),
         spacing: data.spacing.to_bits(),
         bold,
diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index 53dfefd..0de4688 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -3,9 +3,10 @@
 #[cfg(feature = "nostd")]
 use alloc::{boxed::Box, format, sync::Arc, vec::Vec};
 #[cfg(not(feature = "nostd"))]
-use std::{boxed::Box, sync::Arc, vec::Vec};
+use std::{boxed::Box, vec::Vec};
 
 use crate::backends::{BackendFeature, BackendType, RenderBackend};
+use crate::pipeline::font_loader::FontSet;
 use crate::pipeline::{IntermediateLayer, Pipeline, SoftwarePipeline};
 use crate::renderer::RenderContext;
 use crate::utils::{DirtyRegion, RenderError};
@@ -23,7 +24,9 @@ use dirty::{clear_region, crop_pixmap};
 /// Software rendering backend using tiny-skia
 pub struct SoftwareBackend {
     pixmap: Pixmap,
-    font_database: Arc<fontdb::Database>,
+    fonts: FontSet,
+    /// The fonts of layers whose script brings none along
+    system_fonts: FontSet,
     glyph_renderer: crate::pipeline::shaping::GlyphRenderer,
     /// Reused scratch pixmap into which a vector-path layer is rendered when
     /// collecting a bitmap list (`render_to_bitmaps`), then cropped to a tile.
@@ -46,6 +49,7 @@ impl SoftwareBackend {
         let font_database = crate::pipeline::font_loader::shared_system_fonts();
         #[cfg(feature = "nostd")]
         let font_database = Arc::new(fontdb::Database::new());
+        let system_fonts = FontSet::system(font_database);
 
         #[cfg(not(feature = "nostd"))]
         let scratch =
@@ -53,7 +57,8 @@ impl SoftwareBackend {
 
         Ok(Self {
             pixmap,
-            font_database,
+            fonts: system_fonts.clone(),
+            system_fonts,
             glyph_renderer: crate::pipeline::shaping::GlyphRenderer::new(),
             #[cfg(not(feature = "nostd"))]
             scratch,
@@ -167,6 +172,19 @@ impl RenderBackend for SoftwareBackend {
         Ok(Box::new(SoftwarePipeline::new()))
     }
 
+    fn set_fonts(&mut self, fonts: &FontSet) {
+        if self.fonts.holds(fonts.key()) {
+            return;
+        }
+        self.fonts = if self.system_fonts.holds(fonts.key()) {
+            self.system_fonts.clone()
+        } else {
+            fonts.clone()
+        };
+        // A font of another set may have the same id.
+        self.glyph_renderer = crate::pipeline::shaping::GlyphRenderer::new();
+    }
+
     fn composite_layers(
         &mut self,
         layers: &[IntermediateLayer],
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 269178a..337656c 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -32,7 +32,7 @@ impl super::super::SoftwareBackend {
             bottom - anchor.1,
         );
 
-        let key = BlurTileKey::new(data, radius, fill, local);
+        let key = BlurTileKey::new(data, self.fonts.key(), radius, fill, local);
         let cached = if run.projected {
             None
         } else {
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index ce72249..f75db9a 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -24,7 +24,7 @@ impl super::super::SoftwareBackend {
         &mut self,
         data: &TextData,
     ) -> Result<Option<TextRun>, RenderError> {
-        use crate::pipeline::shaping::{find_font_for_text, shape_text_cached};
+        use crate::pipeline::shaping::{find_font_for_text, shape_text_in};
 
         // Extract bold/italic from effects
         let bold = data
@@ -46,13 +46,13 @@ impl super::super::SoftwareBackend {
 
         // Shape the text via the shared per-thread cache (persists across frames
         // and reuses the run the pipeline already shaped for layout).
-        let shaped = shape_text_cached(
+        let shaped = shape_text_in(
             &data.text,
             &data.font_family,
             data.font_size,
             bold,
             italic,
-            &self.font_database,
+            &self.fonts,
         )?;
 
         // The width the text has on screen, where it starts at data.x
@@ -170,7 +170,7 @@ impl super::super::SoftwareBackend {
         // Cache miss (or an effect the coverage path does not handle): resolve the
         // font and build the glyph paths now.
         let font_id = find_font_for_text(
-            &self.font_database,
+            self.fonts.database(),
             &data.font_family,
             bold,
             italic,
@@ -179,7 +179,7 @@ impl super::super::SoftwareBackend {
         let paths = self.glyph_renderer.render_shaped_text(
             &shaped,
             font_id,
-            &self.font_database,
+            self.fonts.database(),
             data.spacing,
         )?;
 
diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index 0b57902..70f5389 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -8,6 +8,12 @@ use std::string::String;
 use ahash::AHashMap;
 use fontdb::Database as FontDatabase;
 
+#[cfg(feature = "nostd")]
+use alloc::sync::Arc;
+#[cfg(not(feature = "nostd"))]
+use std::sync::Arc;
+
+use crate::pipeline::font_loader::FontSet;
 use crate::pipeline::shaping::GlyphRenderer;
 
 mod animation;
@@ -21,12 +27,10 @@ use style::OwnedStyle;
 
 /// Software rendering pipeline with proper style inheritance
 pub struct SoftwarePipeline {
-    /// Font database for text rendering
-    font_database: FontDatabase,
+    /// Fonts for text rendering
+    fonts: FontSet,
     /// The fonts every script can use
-    system_fonts: FontDatabase,
-    /// Which fonts of a script `font_database` holds besides, if any
-    script_fonts: Option<u64>,
+    system_fonts: FontSet,
     /// Glyph renderer
     #[allow(dead_code)] // Glyph rendering component - used in future rendering features
     glyph_renderer: GlyphRenderer,
@@ -68,11 +72,11 @@ impl SoftwarePipeline {
     pub fn new() -> Self {
         let mut font_database = FontDatabase::new();
         font_database.load_system_fonts();
+        let system_fonts = FontSet::system(Arc::new(font_database));
 
         Self {
-            system_fonts: font_database.clone(),
-            font_database,
-            script_fonts: None,
+            fonts: system_fonts.clone(),
+            system_fonts,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(1920.0, 1080.0),
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
@@ -93,11 +97,11 @@ impl SoftwarePipeline {
     pub fn with_dimensions(width: f32, height: f32) -> Self {
         let mut font_database = FontDatabase::new();
         font_database.load_system_fonts();
+        let system_fonts = FontSet::system(Arc::new(font_database));
 
         Self {
-            system_fonts: font_database.clone(),
-            font_database,
-            script_fonts: None,
+            fonts: system_fonts.clone(),
+            system_fonts,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(width, height),
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index aaad80d..6ce80ae 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -3,7 +3,7 @@
 use super::OwnedStyle;
 use crate::collision::BoundingBox;
 use crate::pipeline::{
-    animation::calculate_move_progress, shaping::shape_text_cached, tag_processor::ProcessedTags,
+    animation::calculate_move_progress, shaping::shape_text_in, tag_processor::ProcessedTags,
     text_segmenter::segment_text_with_tags, IntermediateLayer, TextEffect,
 };
 use crate::renderer::RenderContext;
@@ -59,13 +59,13 @@ impl super::SoftwarePipeline {
                         _ => None,
                     })
                     .unwrap_or((100.0, 100.0));
-                let width = shape_text_cached(
+                let width = shape_text_in(
                     &text.text,
                     &text.font_family,
                     text.font_size,
                     has(|effect| matches!(effect, TextEffect::Bold)),
                     has(|effect| matches!(effect, TextEffect::Italic)),
-                    &self.font_database,
+                    &self.fonts,
                 )
                 .map_or(0.0, |shaped| {
                     shaped.drawn_width(text.spacing, scale_x, scale_y)
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index 9b45afe..c72dfbd 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -57,6 +57,10 @@ fn calculate_karaoke_progress(time_cs: u32, start_time_cs: u32, duration_cs: u32
 }
 
 impl Pipeline for super::SoftwarePipeline {
+    fn fonts(&self) -> Option<&crate::pipeline::font_loader::FontSet> {
+        Some(&self.fonts)
+    }
+
     fn prepare_script(
         &mut self,
         script: &Script,
@@ -66,10 +70,8 @@ impl Pipeline for super::SoftwarePipeline {
         // Load embedded and referenced fonts from the script, once per set of
         // fonts and without those of an earlier script
         let script_fonts = super::super::font_loader::script_fonts_key(script);
-        if self.script_fonts != script_fonts {
-            self.font_database = self.system_fonts.clone();
-            super::super::font_loader::load_script_fonts(script, &mut self.font_database);
-            self.script_fonts = script_fonts;
+        if !self.fonts.holds(script_fonts) {
+            self.fonts = self.system_fonts.with_script(script, script_fonts);
         }
 
         // Clear and rebuild styles map, and forget what the previous script's
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 34dcc49..e7a311b 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -18,7 +18,7 @@ use smallvec::SmallVec;
 
 use super::OwnedStyle;
 use crate::pipeline::{
-    shaping::shape_text_cached,
+    shaping::shape_text_in,
     tag_processor::{KaraokeStyle, ProcessedTags},
     text_segmenter::TextSegment,
     IntermediateLayer, TextData, TextEffect,
@@ -211,13 +211,13 @@ impl super::SoftwarePipeline {
                 // Apply both resolution scaling, percentage scaling, and DPI scaling
                 let font_size = base_font_size * scale_y * (font_scale_y / 100.0) * self.dpi_scale;
 
-                let shaped = shape_text_cached(
+                let shaped = shape_text_in(
                     &segment.text,
                     tags.font.name.as_deref().unwrap_or(defaults.font_name),
                     font_size,
                     tags.formatting.bold.unwrap_or(defaults.bold),
                     tags.formatting.italic.unwrap_or(defaults.italic),
-                    &self.font_database,
+                    &self.fonts,
                 )?;
 
                 // Get spacing value (from tags or default style). `\fsp`/style
diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index 9c6ffe3..f9a486b 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -5,7 +5,7 @@ use alloc::{string::String, vec, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::{string::String, vec::Vec};
 
-use crate::pipeline::{shaping::shape_text_cached, text_segmenter::TextSegment};
+use crate::pipeline::{shaping::shape_text_in, text_segmenter::TextSegment};
 
 impl super::SoftwarePipeline {
     /// Word-wrap a logical line (one or more tagged segments) to fit `max_width`
@@ -87,7 +87,7 @@ impl super::SoftwarePipeline {
         };
         let measure = |s: &str| -> (f32, f32, f32) {
             // (advance, ink_min, ink_max)
-            shape_text_cached(s, font, size, bold, italic, &self.font_database)
+            shape_text_in(s, font, size, bold, italic, &self.fonts)
                 .map_or((0.0, 0.0, 0.0), |sh| (sh.width, sh.ink_min, sh.ink_max))
         };
         let word_m: Vec<(f32, f32, f32)> = words.iter().map(|w| measure(w)).collect();
diff --git a/crates/ass-renderer/src/pipeline/font_loader.rs b/crates/ass-renderer/src/pipeline/font_loader.rs
index 6a44541..3276741 100644
--- a/crates/ass-renderer/src/pipeline/font_loader.rs
+++ b/crates/ass-renderer/src/pipeline/font_loader.rs
@@ -3,6 +3,55 @@
 use ass_core::parser::Script;
 use fontdb::Database as FontDatabase;
 
+#[cfg(feature = "nostd")]
+use alloc::sync::Arc;
+#[cfg(not(feature = "nostd"))]
+use std::sync::Arc;
+
+/// The fonts text is measured and painted with: those of the system and, besides,
+/// those a script brings along.
+#[derive(Clone)]
+pub struct FontSet {
+    database: Arc<FontDatabase>,
+    /// Which fonts of a script the database holds, if any
+    script: Option<u64>,
+}
+
+impl FontSet {
+    /// A set of the fonts every script can use
+    pub fn system(database: Arc<FontDatabase>) -> Self {
+        Self {
+            database,
+            script: None,
+        }
+    }
+
+    /// Whether the set holds the fonts named by `key`, as [`script_fonts_key`] does
+    pub(crate) fn holds(&self, key: Option<u64>) -> bool {
+        self.script == key
+    }
+
+    /// The fonts of this set and those of a script
+    pub(crate) fn with_script(&self, script: &Script, key: Option<u64>) -> Self {
+        let mut database = (*self.database).clone();
+        load_script_fonts(script, &mut database);
+        Self {
+            database: Arc::new(database),
+            script: key,
+        }
+    }
+
+    /// The fonts
+    pub fn database(&self) -> &FontDatabase {
+        &self.database
+    }
+
+    /// What tells this set from those of other scripts, for caches
+    pub(crate) fn key(&self) -> Option<u64> {
+        self.script
+    }
+}
+
 /// Lazily-loaded, process-wide system font database, shared via `Arc`.
 ///
 /// `load_system_fonts` scans every installed font and is expensive (tens of ms),
diff --git a/crates/ass-renderer/src/pipeline/mod.rs b/crates/ass-renderer/src/pipeline/mod.rs
index 45592dd..295549a 100644
--- a/crates/ass-renderer/src/pipeline/mod.rs
+++ b/crates/ass-renderer/src/pipeline/mod.rs
@@ -49,6 +49,11 @@ pub trait Pipeline: Send + Sync {
     /// Get the current script
     fn script(&self) -> Option<&Script<'_>>;
 
+    /// Get the fonts of the prepared script, which its layers are made for
+    fn fonts(&self) -> Option<&font_loader::FontSet> {
+        None
+    }
+
     /// Process events into intermediate layers
     fn process_events(
         &mut self,
diff --git a/crates/ass-renderer/src/pipeline/shaping/mod.rs b/crates/ass-renderer/src/pipeline/shaping/mod.rs
index 08807fe..250dbca 100644
--- a/crates/ass-renderer/src/pipeline/shaping/mod.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/mod.rs
@@ -8,6 +8,7 @@ mod shape;
 pub use font_metrics::FontMetrics;
 pub use font_select::find_font_for_text;
 pub use glyph_renderer::GlyphRenderer;
+pub(crate) use shape::shape_text_in;
 pub use shape::{shape_text, shape_text_cached, shape_text_with_style};
 
 #[cfg(feature = "nostd")]
diff --git a/crates/ass-renderer/src/pipeline/shaping/shape.rs b/crates/ass-renderer/src/pipeline/shaping/shape.rs
index ecd26d8..9a3156a 100644
--- a/crates/ass-renderer/src/pipeline/shaping/shape.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/shape.rs
@@ -5,6 +5,7 @@ use alloc::{string::ToString, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::{string::ToString, vec::Vec};
 
+use crate::pipeline::font_loader::FontSet;
 use crate::utils::RenderError;
 use fontdb::Database as FontDatabase;
 use rustybuzz::{Face, Feature, UnicodeBuffer, Variation};
@@ -29,7 +30,8 @@ pub fn shape_text(
 /// and the backend re-shapes for rasterization — and across frames for content
 /// whose glyphs do not change (e.g. transform-animated or karaoke text). The
 /// shaped result depends only on the font outlines, so it is valid across the
-/// pipeline's and backend's (equivalent) system-font databases.
+/// pipeline's and backend's (equivalent) system-font databases. Text in fonts of a
+/// script is shaped with [`shape_text_in`].
 pub fn shape_text_cached(
     text: &str,
     font_family: &str,
@@ -37,13 +39,50 @@ pub fn shape_text_cached(
     bold: bool,
     italic: bool,
     font_database: &FontDatabase,
+) -> Result<ShapedText, RenderError> {
+    shape_keyed(
+        text,
+        font_family,
+        font_size,
+        (bold, italic),
+        (font_database, None),
+    )
+}
+
+/// Shape text with the fonts of the system and a script, cached like
+/// [`shape_text_cached`].
+pub(crate) fn shape_text_in(
+    text: &str,
+    font_family: &str,
+    font_size: f32,
+    bold: bool,
+    italic: bool,
+    fonts: &FontSet,
+) -> Result<ShapedText, RenderError> {
+    shape_keyed(
+        text,
+        font_family,
+        font_size,
+        (bold, italic),
+        (fonts.database(), fonts.key()),
+    )
+}
+
+/// Shape text with a database and what tells it from others, `None` for the
+/// system's fonts.
+fn shape_keyed(
+    text: &str,
+    font_family: &str,
+    font_size: f32,
+    (bold, italic): (bool, bool),
+    (font_database, fonts): (&FontDatabase, Option<u64>),
 ) -> Result<ShapedText, RenderError> {
     #[cfg(not(feature = "nostd"))]
     {
         use std::cell::RefCell;
         use std::collections::HashMap;
-        // (text, font family, font size bits, bold, italic)
-        type ShapeCacheKey = (String, String, u32, bool, bool);
+        // (text, font family, font size bits, bold, italic, fonts of a script)
+        type ShapeCacheKey = (String, String, u32, bool, bool, Option<u64>);
         thread_local! {
             static CACHE: RefCell<HashMap<ShapeCacheKey, ShapedText>> = RefCell::new(HashMap::new());
         }
@@ -53,6 +92,7 @@ pub fn shape_text_cached(
             font_size.to_bits(),
             bold,
             italic,
+            fonts,
         );
         if let Some(shaped) = CACHE.with(|c| c.borrow().get(&key).cloned()) {
             return Ok(shaped);
@@ -72,6 +112,7 @@ pub fn shape_text_cached(
     }
     #[cfg(feature = "nostd")]
     {
+        let _ = fonts;
         shape_text_with_style(text, font_family, font_size, bold, italic, font_database)
     }
 }
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index 764ec53..d553c15 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -123,7 +123,7 @@ impl Renderer {
         // The pipeline does not consume a ScriptAnalysis, so it is not computed
         // here — analysing the whole script every frame was pathologically slow on
         // large files (tens of seconds for a full episode).
-        self.pipeline.prepare_script(script, None)?;
+        self.prepare_script(script)?;
         let layers = self
             .pipeline
             .process_events(&events, time_cs, &self.context)?;
@@ -170,7 +170,7 @@ impl Renderer {
             return Ok(Vec::new());
         }
 
-        self.pipeline.prepare_script(script, None)?;
+        self.prepare_script(script)?;
         let layers = self
             .pipeline
             .process_events(&events, time_cs, &self.context)?;
@@ -178,6 +178,15 @@ impl Renderer {
             .render_layers_to_bitmaps(&layers, &self.context)
     }
 
+    /// Prepare the pipeline for a script, and the backend for its fonts.
+    fn prepare_script(&mut self, script: &Script) -> Result<(), RenderError> {
+        self.pipeline.prepare_script(script, None)?;
+        if let Some(fonts) = self.pipeline.fonts() {
+            self.backend.set_fonts(fonts);
+        }
+        Ok(())
+    }
+
     /// Identify a static frame by everything its picture is made from.
     ///
     /// The events' texts alone would not do: the same text is drawn differently
@@ -285,7 +294,7 @@ impl Renderer {
             return Ok(previous_frame.with_timestamp(time_cs));
         }
 
-        self.pipeline.prepare_script(script, None)?;
+        self.prepare_script(script)?;
         let layers = self
             .pipeline
             .process_events(&events, time_cs, &self.context)?;
-- 
2.43.0


From 473dd878e1935b127432f177ff3927c78ff6acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:26 +0000
Subject: [PATCH 80/94] fix: splines of drawings are B-splines

`s` drew a curve through its points, closed whether or not `c` followed, and `p`
another one instead of extending the spline. Both give the uniform cubic B-spline of
the point before and all points after them, which `c` closes.
---
 .../ass-renderer/src/pipeline/drawing/mod.rs  | 75 +++++++++++------
 .../src/pipeline/drawing/parse.rs             | 12 +--
 .../src/pipeline/drawing/spline.rs            | 83 +++++--------------
 3 files changed, 70 insertions(+), 100 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/drawing/mod.rs b/crates/ass-renderer/src/pipeline/drawing/mod.rs
index 2326e55..9832a8a 100644
--- a/crates/ass-renderer/src/pipeline/drawing/mod.rs
+++ b/crates/ass-renderer/src/pipeline/drawing/mod.rs
@@ -52,21 +52,29 @@ pub fn process_drawing_commands(commands: &str) -> Result<Option<Path>, RenderEr
     }
 
     let mut builder = PathBuilder::new();
-    let mut _current_pos = (0.0, 0.0);
+    // The point named last, the control points of the spline in progress, and
+    // whether the current contour has a segment
+    let mut named = None;
+    let mut spline: Vec<(f32, f32)> = Vec::new();
+    let mut drawn = false;
 
     for cmd in draw_commands {
+        if !matches!(
+            cmd,
+            DrawCommand::Spline { .. } | DrawCommand::ExtendSpline { .. } | DrawCommand::ClosePath
+        ) {
+            spline.clear();
+        }
         match cmd {
-            DrawCommand::MoveTo { x, y } => {
-                builder.move_to(x, y);
-                _current_pos = (x, y);
-            }
-            DrawCommand::MoveToNoDraw { x, y } => {
+            DrawCommand::MoveTo { x, y } | DrawCommand::MoveToNoDraw { x, y } => {
                 builder.move_to(x, y);
-                _current_pos = (x, y);
+                named = Some((x, y));
+                drawn = false;
             }
             DrawCommand::LineTo { x, y } => {
                 builder.line_to(x, y);
-                _current_pos = (x, y);
+                named = Some((x, y));
+                drawn = true;
             }
             DrawCommand::BezierTo {
                 x1,
@@ -77,30 +85,25 @@ pub fn process_drawing_commands(commands: &str) -> Result<Option<Path>, RenderEr
                 y3,
             } => {
                 builder.cubic_to(x1, y1, x2, y2, x3, y3);
-                _current_pos = (x3, y3);
-            }
-            DrawCommand::Spline { ref points } => {
-                // Convert B-spline to Bezier curves
-                if points.len() >= 3 {
-                    let beziers = spline_to_bezier(points, false);
-                    for (c1, c2, end) in beziers {
-                        builder.cubic_to(c1.0, c1.1, c2.0, c2.1, end.0, end.1);
-                        _current_pos = end;
-                    }
-                }
+                named = Some((x3, y3));
+                drawn = true;
             }
-            DrawCommand::ExtendSpline { ref points } => {
-                // Extended B-spline with additional control
-                if points.len() >= 3 {
-                    let beziers = spline_to_bezier(points, true);
-                    for (c1, c2, end) in beziers {
-                        builder.cubic_to(c1.0, c1.1, c2.0, c2.1, end.0, end.1);
-                        _current_pos = end;
-                    }
+            DrawCommand::Spline { points } | DrawCommand::ExtendSpline { points } => {
+                if spline.is_empty() {
+                    spline.extend(named);
                 }
+                named = points.last().copied().or(named);
+                extend_spline(&mut builder, &mut spline, &points, &mut drawn);
             }
             DrawCommand::ClosePath => {
+                // A spline is closed by its first control points
+                let first: Vec<(f32, f32)> = spline.iter().take(3).copied().collect();
+                if first.len() == 3 {
+                    extend_spline(&mut builder, &mut spline, &first, &mut drawn);
+                }
+                spline.clear();
                 builder.close();
+                drawn = false;
             }
         }
     }
@@ -108,6 +111,24 @@ pub fn process_drawing_commands(commands: &str) -> Result<Option<Path>, RenderEr
     Ok(builder.finish())
 }
 
+/// Draw the curves that further control points add to a spline
+fn extend_spline(
+    builder: &mut PathBuilder,
+    spline: &mut Vec<(f32, f32)>,
+    points: &[(f32, f32)],
+    drawn: &mut bool,
+) {
+    let known = spline.len().saturating_sub(3);
+    spline.extend_from_slice(points);
+    for (start, c1, c2, end) in spline_to_bezier(&spline[known..]) {
+        if !*drawn {
+            builder.move_to(start.0, start.1);
+            *drawn = true;
+        }
+        builder.cubic_to(c1.0, c1.1, c2.0, c2.1, end.0, end.1);
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/ass-renderer/src/pipeline/drawing/parse.rs b/crates/ass-renderer/src/pipeline/drawing/parse.rs
index bc3492b..a974d11 100644
--- a/crates/ass-renderer/src/pipeline/drawing/parse.rs
+++ b/crates/ass-renderer/src/pipeline/drawing/parse.rs
@@ -129,12 +129,6 @@ pub fn parse_draw_commands(text: &str) -> Result<Vec<DrawCommand>, RenderError>
                 }
 
                 if points.len() >= 3 {
-                    // Close the spline by repeating first point if needed
-                    let first = points[0];
-                    let last = points[points.len() - 1];
-                    if (first.0 - last.0).abs() > 0.01 || (first.1 - last.1).abs() > 0.01 {
-                        points.push(first);
-                    }
                     commands.push(DrawCommand::Spline { points });
                 } else if !points.is_empty() {
                     return Err(RenderError::InvalidDrawCommand(
@@ -158,12 +152,8 @@ pub fn parse_draw_commands(text: &str) -> Result<Vec<DrawCommand>, RenderError>
                     i += 2;
                 }
 
-                if points.len() >= 3 {
+                if !points.is_empty() {
                     commands.push(DrawCommand::ExtendSpline { points });
-                } else if !points.is_empty() {
-                    return Err(RenderError::InvalidDrawCommand(
-                        "Extended spline needs at least 3 points".to_string(),
-                    ));
                 }
             }
             "c" => {
diff --git a/crates/ass-renderer/src/pipeline/drawing/spline.rs b/crates/ass-renderer/src/pipeline/drawing/spline.rs
index 75b872c..c97119f 100644
--- a/crates/ass-renderer/src/pipeline/drawing/spline.rs
+++ b/crates/ass-renderer/src/pipeline/drawing/spline.rs
@@ -5,66 +5,25 @@ use alloc::vec::Vec;
 #[cfg(not(feature = "nostd"))]
 use std::vec::Vec;
 
-/// A bezier curve represented as three control points: start, control, end
-type BezierCurve = ((f32, f32), (f32, f32), (f32, f32));
-
-/// Convert B-spline control points to Bezier curves
-///
-/// Parameters:
-/// - points: Control points for the spline
-/// - extended: Whether to use extended spline algorithm (for 'p' command)
-pub(super) fn spline_to_bezier(points: &[(f32, f32)], extended: bool) -> Vec<BezierCurve> {
-    let mut beziers = Vec::new();
-
-    if points.len() < 3 {
-        return beziers;
-    }
-
-    if extended {
-        // Extended B-spline for 'p' command - uses Catmull-Rom interpolation
-        for i in 0..points.len() - 1 {
-            let p0 = if i > 0 { points[i - 1] } else { points[i] };
-            let p1 = points[i];
-            let p2 = points[i + 1];
-            let p3 = if i + 2 < points.len() {
-                points[i + 2]
-            } else {
-                points[i + 1]
-            };
-
-            // Catmull-Rom to Bezier conversion
-            let tension = 0.5; // Standard Catmull-Rom tension
-            let c1 = (
-                p1.0 + tension * (p2.0 - p0.0) / 3.0,
-                p1.1 + tension * (p2.1 - p0.1) / 3.0,
-            );
-            let c2 = (
-                p2.0 - tension * (p3.0 - p1.0) / 3.0,
-                p2.1 - tension * (p3.1 - p1.1) / 3.0,
-            );
-
-            beziers.push((c1, c2, p2));
-        }
-    } else {
-        // Standard B-spline for 's' command
-        // Uses uniform cubic B-spline to Bezier conversion
-        for i in 0..points.len() - 1 {
-            let p0 = if i > 0 { points[i - 1] } else { points[i] };
-            let p1 = points[i];
-            let p2 = points[i + 1];
-            let p3 = if i + 2 < points.len() {
-                points[i + 2]
-            } else {
-                points[i + 1]
-            };
-
-            // Calculate control points for cubic bezier from B-spline
-            let c1 = (p1.0 + (p2.0 - p0.0) / 6.0, p1.1 + (p2.1 - p0.1) / 6.0);
-            let c2 = (p2.0 - (p3.0 - p1.0) / 6.0, p2.1 - (p3.1 - p1.1) / 6.0);
-
-            beziers.push((c1, c2, p2));
-        }
-    }
-
-    beziers
+/// A cubic Bezier curve: start, two control points, end
+type BezierCurve = ((f32, f32), (f32, f32), (f32, f32), (f32, f32));
+
+/// Convert the control points of a uniform cubic B-spline to Bezier curves, one
+/// for every four successive points
+pub(super) fn spline_to_bezier(points: &[(f32, f32)]) -> Vec<BezierCurve> {
+    let mix = |a: (f32, f32), b: (f32, f32), part: f32| {
+        (a.0 + (b.0 - a.0) * part, a.1 + (b.1 - a.1) * part)
+    };
+
+    points
+        .windows(4)
+        .map(|window| {
+            let (before, from, to, after) = (window[0], window[1], window[2], window[3]);
+            let c1 = mix(from, to, 1.0 / 3.0);
+            let c2 = mix(from, to, 2.0 / 3.0);
+            let start = mix(mix(before, from, 2.0 / 3.0), c1, 0.5);
+            let end = mix(c2, mix(to, after, 1.0 / 3.0), 0.5);
+            (start, c1, c2, end)
+        })
+        .collect()
 }
-- 
2.43.0


From 543d367f3f1e457c79519863115e7a86d40c8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 81/94] fix: incremental event edits change the text of an
 event

---
 .../ass-editor/core/document/incremental_parse.rs   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/core/document/incremental_parse.rs b/crates/ass-editor/core/document/incremental_parse.rs
index 12e1720..a80639b 100644
--- a/crates/ass-editor/core/document/incremental_parse.rs
+++ b/crates/ass-editor/core/document/incremental_parse.rs
@@ -52,10 +52,15 @@ impl EditorDocument {
         event_text: &str,
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
-        let content = self.text();
-        if let Some(pos) = content.find(event_text) {
-            let range = Range::new(Position::new(pos), Position::new(pos + event_text.len()));
-            self.edit_incremental(range, new_text)
+        let lines = self.event_lines().unwrap_or_default();
+        let found = lines
+            .iter()
+            .find(|line| line.get("Text").contains(event_text));
+        if let Some(line) = found {
+            let edited = line.get("Text").replacen(event_text, new_text, 1);
+            let new_line = line.with(&[("Text", &edited)])?;
+            let range = Range::new(Position::new(line.start), Position::new(line.end));
+            self.edit_incremental(range, &new_line)
         } else {
             Err(EditorError::ValidationError {
                 message: format!("Event text not found: {event_text}"),
-- 
2.43.0


From 25e0dd6aaa5e868e51060ffca5eb0097ee4926a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 82/94] fix: script deltas change the sections they name

---
 .../ass-editor/core/document/delta_apply.rs   | 98 +++----------------
 .../ass-editor/core/document/section_text.rs  | 16 +++
 2 files changed, 32 insertions(+), 82 deletions(-)

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index 4ccb14e..d8fa184 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -4,11 +4,11 @@
 //! additions, modifications, and removals into raw text edits, then
 //! revalidating the result.
 
+use super::section_text::SectionText;
 use super::EditorDocument;
 use crate::commands::CommandResult;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
-use ass_core::parser::ast::Section;
 use ass_core::parser::script::ScriptDeltaOwned;
 use ass_core::parser::Script;
 
@@ -27,41 +27,22 @@ impl EditorDocument {
 
     /// Apply a script delta for efficient incremental parsing (internal)
     pub(super) fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
-        // Parse the current script to get sections
+        // Sections are numbered as the parser numbers them
         let current_content = self.text();
-        let script = Script::parse(&current_content).map_err(EditorError::from)?;
-
-        // Apply removals first (in reverse order to maintain indices)
-        let mut removed_indices = delta.removed.clone();
-        removed_indices.sort_by(|a, b| b.cmp(a)); // Sort descending
-
-        for index in removed_indices {
-            if index < script.sections().len() {
-                // Find the section's text range and remove it
-                let section = &script.sections()[index];
-                let start_offset = self.find_section_start(section)?;
-                let end_offset = self.find_section_end(section)?;
-
-                self.delete_raw(Range::new(
-                    Position::new(start_offset),
-                    Position::new(end_offset),
-                ))?;
-            }
-        }
-
-        // Apply modifications
-        for (index, new_section_text) in delta.modified {
-            if index < script.sections().len() {
-                // Find the section's text range
-                let section = &script.sections()[index];
-                let start_offset = self.find_section_start(section)?;
-                let end_offset = self.find_section_end(section)?;
-
-                // Replace with new section text
-                self.replace_raw(
-                    Range::new(Position::new(start_offset), Position::new(end_offset)),
-                    &new_section_text,
-                )?;
+        let sections = SectionText::parsed(&current_content);
+
+        // Each section is removed or replaced, the last one first so that the
+        // places of the others stay valid
+        for (index, section) in sections.iter().enumerate().rev() {
+            let range = Range::new(Position::new(section.header), Position::new(section.end));
+            if delta.removed.contains(&index) {
+                self.delete_raw(range)?;
+            } else if let Some((_, text)) = delta.modified.iter().rfind(|(i, _)| *i == index) {
+                let mut new_text = text.clone();
+                if section.end < current_content.len() && !new_text.ends_with('\n') {
+                    new_text.push('\n');
+                }
+                self.replace_raw(range, &new_text)?;
             }
         }
 
@@ -88,51 +69,4 @@ impl EditorDocument {
 
         Ok(())
     }
-
-    /// Find the start offset of a section in the document
-    fn find_section_start(&self, section: &Section) -> Result<usize> {
-        // Get the section header text
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the document
-        if let Some(pos) = self.text().find(header) {
-            Ok(pos)
-        } else {
-            Err(EditorError::SectionNotFound {
-                section: header.to_string(),
-            })
-        }
-    }
-
-    /// Find the end offset of a section in the document
-    fn find_section_end(&self, section: &Section) -> Result<usize> {
-        let start = self.find_section_start(section)?;
-        let content = &self.text()[start..];
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let mut end_offset = content.len();
-        for header in &section_headers {
-            if let Some(pos) = content.find(header) {
-                if pos > 0 {
-                    end_offset = end_offset.min(pos);
-                }
-            }
-        }
-
-        Ok(start + end_offset)
-    }
 }
diff --git a/crates/ass-editor/core/document/section_text.rs b/crates/ass-editor/core/document/section_text.rs
index 24c8341..1070d26 100644
--- a/crates/ass-editor/core/document/section_text.rs
+++ b/crates/ass-editor/core/document/section_text.rs
@@ -69,6 +69,22 @@ impl SectionText {
         sections
     }
 
+    /// The sections the parser keeps, in the order it numbers them
+    pub fn parsed(text: &str) -> Vec<Self> {
+        Self::all(text)
+            .into_iter()
+            .filter(|section| {
+                let header = lines(text, section.header, section.body).next();
+                header.is_some_and(|line| line.text.contains(']'))
+                    && (section.holds_styles()
+                        || matches!(
+                            section.name.as_str(),
+                            "Script Info" | "Events" | "Fonts" | "Graphics"
+                        ))
+            })
+            .collect()
+    }
+
     /// The first section with one of the names
     pub fn find(text: &str, names: &[&str]) -> Option<Self> {
         Self::all(text)
-- 
2.43.0


From 5f06e39b0c67408ab165f3dc185ab4fbc51fe91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 83/94] fix: event builders refuse values that do not fit in
 their columns

---
 .../ass-editor/core/builders/event_build.rs   | 60 ++++++++++---------
 .../ass-editor/core/document/event_lines.rs   |  4 +-
 crates/ass-editor/core/document/mod.rs        |  2 +-
 3 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/crates/ass-editor/core/builders/event_build.rs b/crates/ass-editor/core/builders/event_build.rs
index ec68d56..f5b9001 100644
--- a/crates/ass-editor/core/builders/event_build.rs
+++ b/crates/ass-editor/core/builders/event_build.rs
@@ -1,6 +1,7 @@
 //! Event line serialization for [`EventBuilder`].
 
 use super::EventBuilder;
+use crate::core::document::event_lines::{split_columns, DEFAULT_COLUMNS};
 use crate::core::errors::{EditorError, Result};
 use ass_core::parser::ast::EventType;
 use ass_core::ScriptVersion;
@@ -37,31 +38,17 @@ impl EventBuilder<'_> {
         let margin_v = self.margin_v.unwrap_or(Cow::Borrowed("0"));
         let effect = self.effect.unwrap_or(Cow::Borrowed(""));
 
-        // Format as ASS event line based on version
-        let event_type_str = event_type.as_str();
-        let line = match version {
-            ScriptVersion::SsaV4 => {
-                // SSA v4 format: no layer field, uses Marked=0 prefix
-                format!(
-                    "{event_type_str}: Marked=0,{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"
-                )
-            }
-            ScriptVersion::AssV4 => {
-                // ASS v4 format: includes layer field
-                format!(
-                    "{event_type_str}: {layer},{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"
-                )
-            }
-            ScriptVersion::AssV4Plus => {
-                // ASS v4++ format: can use margin_t/margin_b if specified
-                // For now, we use the same format as v4 since the builder doesn't support margin_t/margin_b yet
-                format!(
-                    "{event_type_str}: {layer},{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"
-                )
-            }
+        // The first column is the layer, or in SSA v4 the Marked=0 prefix
+        let first = match version {
+            ScriptVersion::SsaV4 => "Marked=0",
+            // ASS v4++ can use margin_t/margin_b if specified. For now, we use the same
+            // format as v4 since the builder doesn't support margin_t/margin_b yet
+            ScriptVersion::AssV4 | ScriptVersion::AssV4Plus => &layer,
         };
-
-        Ok(line)
+        let values = [
+            first, &start, &end, &style, &name, &margin_l, &margin_r, &margin_v, &effect, &text,
+        ];
+        write_line(event_type, &DEFAULT_COLUMNS, &values)
     }
 
     /// Build the event with a specific format line
@@ -74,7 +61,6 @@ impl EventBuilder<'_> {
         }
 
         let event_type = self.event_type.unwrap_or(EventType::Dialogue);
-        let event_type_str = event_type.as_str();
 
         // Build field values based on format specification
         let mut field_values = Vec::with_capacity(format.len());
@@ -107,11 +93,29 @@ impl EventBuilder<'_> {
                     })
                 }
             };
-            field_values.push(value.to_string());
+            field_values.push(value);
         }
 
         // Build the event line
-        let line = format!("{event_type_str}: {}", field_values.join(","));
-        Ok(line)
+        write_line(event_type, format, &field_values)
+    }
+}
+
+/// Write an event line, refusing values that do not fit in their columns
+fn write_line(event_type: EventType, format: &[&str], values: &[&str]) -> Result<String> {
+    let columns: Vec<String> = format.iter().map(ToString::to_string).collect();
+    let data = values.join(",");
+    let read_back = split_columns(&columns, &data);
+    let fits = !data.contains(['\n', '\r'])
+        && read_back.len() == values.len()
+        && read_back
+            .iter()
+            .zip(values)
+            .all(|(a, b)| a.trim() == b.trim());
+    if !fits {
+        return Err(EditorError::FormatLineError {
+            message: "Value does not fit in its column".to_string(),
+        });
     }
+    Ok(format!("{}: {data}", event_type.as_str()))
 }
diff --git a/crates/ass-editor/core/document/event_lines.rs b/crates/ass-editor/core/document/event_lines.rs
index 76ef469..935884e 100644
--- a/crates/ass-editor/core/document/event_lines.rs
+++ b/crates/ass-editor/core/document/event_lines.rs
@@ -17,7 +17,7 @@ use alloc::{
 };
 
 /// Columns of an events section without a format line
-const DEFAULT_COLUMNS: [&str; 10] = [
+pub(crate) const DEFAULT_COLUMNS: [&str; 10] = [
     "Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text",
 ];
 
@@ -84,7 +84,7 @@ impl EventLine {
 /// Split the data of an event into its columns
 ///
 /// An effect may contain commas inside parentheses.
-fn split_columns<'a>(columns: &[String], data: &'a str) -> Vec<&'a str> {
+pub(crate) fn split_columns<'a>(columns: &[String], data: &'a str) -> Vec<&'a str> {
     let count = if columns.iter().any(|c| c.eq_ignore_ascii_case("Text")) {
         columns.len()
     } else {
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index 615c2f5..9b6ff6e 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -9,7 +9,7 @@ mod constructors;
 mod editing;
 mod editing_raw;
 mod event_edit;
-mod event_lines;
+pub(crate) mod event_lines;
 mod grouped_edit;
 mod incremental_parse;
 mod metadata;
-- 
2.43.0


From 2d1ac58209da443857cc651c0a5092b171c8a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 84/94] fix: the deltas of partial parsing hold the source text
 of sections

---
 crates/ass-core/parser/script/lookup.rs       | 36 ++++++++++++++++++-
 crates/ass-core/parser/script/partial.rs      |  6 ++--
 crates/ass-editor/core/incremental/reparse.rs | 10 +++---
 3 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/crates/ass-core/parser/script/lookup.rs b/crates/ass-core/parser/script/lookup.rs
index 5fde8f9..5615a67 100644
--- a/crates/ass-core/parser/script/lookup.rs
+++ b/crates/ass-core/parser/script/lookup.rs
@@ -4,7 +4,11 @@
 //! validation, range lookup by type, offset-to-section resolution, and bulk
 //! boundary enumeration.
 
-use alloc::vec::Vec;
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
 
 use crate::parser::ast::{Section, SectionType};
 
@@ -36,6 +40,36 @@ impl<'a> Script<'a> {
             .map(|s| s.start..s.end)
     }
 
+    /// Get the source text of a section, from its header to the next header
+    ///
+    /// A section without entries has no place in the source, its text is the header.
+    #[must_use]
+    pub fn section_source(&self, section: &Section<'_>) -> String {
+        let Some(span) = section.span() else {
+            return format!("[{}]\n", section.section_type().header_name());
+        };
+        let mut start = 0;
+        let mut end = self.source.len();
+        let mut line_start = 0;
+        for line in self.source.split_inclusive('\n') {
+            let text = match line.strip_prefix('\u{feff}') {
+                Some(first_line) if line_start == 0 => first_line.trim_start(),
+                _ => line.trim_start(),
+            };
+            if text.starts_with('[') {
+                let header = line_start + line.len() - text.len();
+                if header < span.start {
+                    start = header;
+                } else if header >= span.end {
+                    end = header;
+                    break;
+                }
+            }
+            line_start += line.len();
+        }
+        self.source[start..end].to_string()
+    }
+
     /// Find section containing the given byte offset
     ///
     /// Returns the section that contains the specified byte offset,
diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 1cf2d56..f135179 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -67,12 +67,14 @@ impl Script<'_> {
 
         // Convert added sections
         for section in delta.added {
-            owned_delta.added.push(format!("{section:?}"));
+            owned_delta.added.push(new_script.section_source(&section));
         }
 
         // Convert modified sections
         for (idx, section) in delta.modified {
-            owned_delta.modified.push((idx, format!("{section:?}")));
+            owned_delta
+                .modified
+                .push((idx, new_script.section_source(&section)));
         }
 
         // Convert removed sections
diff --git a/crates/ass-editor/core/incremental/reparse.rs b/crates/ass-editor/core/incremental/reparse.rs
index 17f8f9b..88d77ea 100644
--- a/crates/ass-editor/core/incremental/reparse.rs
+++ b/crates/ass-editor/core/incremental/reparse.rs
@@ -10,7 +10,7 @@ use crate::core::{Range, Result};
 use ass_core::parser::{script::ScriptDeltaOwned, Script};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String, string::ToString, vec::Vec};
+use alloc::{string::String, string::ToString, vec::Vec};
 
 impl IncrementalParser {
     /// Force a full reparse of the document
@@ -35,12 +35,14 @@ impl IncrementalParser {
 
             // Convert added sections
             for section in delta.added {
-                owned_delta.added.push(format!("{section:?}"));
+                owned_delta.added.push(new_script.section_source(&section));
             }
 
             // Convert modified sections
             for (idx, section) in delta.modified {
-                owned_delta.modified.push((idx, format!("{section:?}")));
+                owned_delta
+                    .modified
+                    .push((idx, new_script.section_source(&section)));
             }
 
             // Copy removed indices
@@ -53,7 +55,7 @@ impl IncrementalParser {
                 added: new_script
                     .sections()
                     .iter()
-                    .map(|s| format!("{s:?}"))
+                    .map(|s| new_script.section_source(s))
                     .collect(),
                 modified: Vec::new(),
                 removed: Vec::new(),
-- 
2.43.0


From 6ee50ef8477811607beb31087c302f2269c94b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 85/94] fix: event builders write any columns asked for

---
 crates/ass-editor/core/builders/event_build.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/core/builders/event_build.rs b/crates/ass-editor/core/builders/event_build.rs
index f5b9001..4a5778e 100644
--- a/crates/ass-editor/core/builders/event_build.rs
+++ b/crates/ass-editor/core/builders/event_build.rs
@@ -103,15 +103,19 @@ impl EventBuilder<'_> {
 
 /// Write an event line, refusing values that do not fit in their columns
 fn write_line(event_type: EventType, format: &[&str], values: &[&str]) -> Result<String> {
-    let columns: Vec<String> = format.iter().map(ToString::to_string).collect();
     let data = values.join(",");
-    let read_back = split_columns(&columns, &data);
+    // Only the last column may hold any comma, an effect those in its parentheses
+    let one_column_each = values[..values.len() - 1].iter().all(|v| !v.contains(','));
     let fits = !data.contains(['\n', '\r'])
-        && read_back.len() == values.len()
-        && read_back
-            .iter()
-            .zip(values)
-            .all(|(a, b)| a.trim() == b.trim());
+        && (one_column_each || {
+            let columns: Vec<String> = format.iter().map(ToString::to_string).collect();
+            let read_back = split_columns(&columns, &data);
+            read_back.len() == values.len()
+                && read_back
+                    .iter()
+                    .zip(values)
+                    .all(|(a, b)| a.trim() == b.trim())
+        });
     if !fits {
         return Err(EditorError::FormatLineError {
             message: "Value does not fit in its column".to_string(),
-- 
2.43.0


From 00b35ce66bb2571ab89bca2931cc8179b7ef5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:36 +0000
Subject: [PATCH 86/94] fix: the alignments of SSA scripts name the rows SSA
 means

SSA adds 4 to an alignment for the top and 8 for the middle. Its styles
were placed as if the numbers were those of ASS, and the conversion
helpers swapped the two rows.
---
 crates/ass-renderer/src/layout/alignment.rs        | 14 +++++++-------
 .../ass-renderer/src/layout/positioning/coords.rs  |  9 ++++-----
 crates/ass-renderer/src/pipeline/build/run.rs      | 10 ++++++++++
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/ass-renderer/src/layout/alignment.rs b/crates/ass-renderer/src/layout/alignment.rs
index f25d570..39cc5c5 100644
--- a/crates/ass-renderer/src/layout/alignment.rs
+++ b/crates/ass-renderer/src/layout/alignment.rs
@@ -44,14 +44,14 @@ impl Alignment {
     /// Check if this is a legacy SSA alignment value
     pub fn from_ssa_legacy(value: u8) -> Self {
         // SSA legacy: 1=left, 2=center, 3=right
-        // +0=sub(bottom), +4=title(middle), +8=top, +128=mid-title
+        // +0=sub(bottom), +4=top title, +8=mid title
         match value & 3 {
             1 => {
                 // Left alignment
                 match value & 12 {
                     0 => Self::BottomLeft,
-                    4 => Self::MiddleLeft,
-                    8 | 12 => Self::TopLeft,
+                    4 => Self::TopLeft,
+                    8 | 12 => Self::MiddleLeft,
                     _ => Self::BottomLeft,
                 }
             }
@@ -59,8 +59,8 @@ impl Alignment {
                 // Center alignment
                 match value & 12 {
                     0 => Self::BottomCenter,
-                    4 => Self::Center,
-                    8 | 12 => Self::TopCenter,
+                    4 => Self::TopCenter,
+                    8 | 12 => Self::Center,
                     _ => Self::BottomCenter,
                 }
             }
@@ -68,8 +68,8 @@ impl Alignment {
                 // Right alignment
                 match value & 12 {
                     0 => Self::BottomRight,
-                    4 => Self::MiddleRight,
-                    8 | 12 => Self::TopRight,
+                    4 => Self::TopRight,
+                    8 | 12 => Self::MiddleRight,
                     _ => Self::BottomRight,
                 }
             }
diff --git a/crates/ass-renderer/src/layout/positioning/coords.rs b/crates/ass-renderer/src/layout/positioning/coords.rs
index e7e8a15..43c5512 100644
--- a/crates/ass-renderer/src/layout/positioning/coords.rs
+++ b/crates/ass-renderer/src/layout/positioning/coords.rs
@@ -15,7 +15,7 @@ pub fn scale_coordinates(
 /// Convert SSA legacy alignment to ASS alignment
 pub fn convert_ssa_alignment(ssa_align: u8) -> u8 {
     // SSA: 1=left, 2=center, 3=right
-    // +0=sub, +4=title, +8=top, +128=mid-title
+    // +0=sub (bottom), +4=top title, +8=mid title
     let h_align = ssa_align & 3;
     let v_align = (ssa_align >> 2) & 3;
 
@@ -27,10 +27,9 @@ pub fn convert_ssa_alignment(ssa_align: u8) -> u8 {
     };
 
     let v_part = match v_align {
-        0 => 0,     // Bottom
-        1 | 3 => 3, // Middle (title or mid-title)
-        2 => 6,     // Top
-        _ => 0,     // Default bottom
+        0 => 0, // Bottom
+        1 => 6, // Top (top title)
+        _ => 3, // Middle (mid title)
     };
 
     h_part + v_part
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index c72dfbd..07844ea 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -8,9 +8,11 @@ use std::{string::ToString, vec::Vec};
 #[cfg(feature = "analysis-integration")]
 use ass_core::analysis::ScriptAnalysis;
 use ass_core::parser::{Event, Script};
+use ass_core::ScriptVersion;
 
 use super::OwnedStyle;
 use crate::collision::PositionedEvent;
+use crate::layout::convert_ssa_alignment;
 use crate::pipeline::{
     is_animated, text_segmenter::segment_text_with_tags, IntermediateLayer, Pipeline,
 };
@@ -149,6 +151,14 @@ impl Pipeline for super::SoftwarePipeline {
                         let style_name = style.name.to_string();
                         let mut owned_style = OwnedStyle::from_style(style);
 
+                        // SSA numbers the rows of the screen its own way
+                        if script.version() == ScriptVersion::SsaV4 {
+                            if let Ok(alignment @ 1..=11) = owned_style.alignment.trim().parse() {
+                                owned_style.alignment =
+                                    convert_ssa_alignment(alignment).to_string();
+                            }
+                        }
+
                         // Apply LayoutRes->PlayRes scaling if needed
                         if needs_layout_scaling {
                             // Scale font size (using Y scale as per libass)
-- 
2.43.0


From 145848f6cda6f5dbd5f08182e8cd568f8b6ef62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 87/94] fix: positions of right-aligned text are on the right

---
 .../src/layout/positioning/info.rs            | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/ass-renderer/src/layout/positioning/info.rs b/crates/ass-renderer/src/layout/positioning/info.rs
index 49a1d75..a023c72 100644
--- a/crates/ass-renderer/src/layout/positioning/info.rs
+++ b/crates/ass-renderer/src/layout/positioning/info.rs
@@ -86,19 +86,19 @@ impl PositionInfo {
         margin_vertical: f32,
     ) -> (f32, f32) {
         // Horizontal position based on alignment
-        let x = match alignment % 3 {
-            1 => {
+        let x = match alignment {
+            1 | 4 | 7 => {
                 // Left alignment (1, 4, 7)
                 margin_left
             }
-            2 | 0 => {
-                // Center alignment (2, 5, 8)
-                (screen_width - bbox.width) / 2.0
-            }
-            _ => {
+            3 | 6 | 9 => {
                 // Right alignment (3, 6, 9)
                 screen_width - margin_right - bbox.width
             }
+            _ => {
+                // Center alignment (2, 5, 8)
+                (screen_width - bbox.width) / 2.0
+            }
         };
 
         // Vertical position based on alignment
@@ -126,10 +126,10 @@ impl PositionInfo {
 
     /// Get horizontal offset for alignment anchor
     fn get_alignment_offset_x(alignment: u8, bbox: &BoundingBox) -> f32 {
-        match alignment % 3 {
-            1 => 0.0,                  // Left
-            2 | 0 => bbox.width / 2.0, // Center
-            _ => bbox.width,           // Right
+        match alignment {
+            1 | 4 | 7 => 0.0,        // Left
+            3 | 6 | 9 => bbox.width, // Right
+            _ => bbox.width / 2.0,   // Center
         }
     }
 
-- 
2.43.0


From 17211eb4c87ec674cf3ce620f237b820cb93956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 88/94] fix: transforms animate only the property they name

\fsp was taken for \fs, \frx and \fry for \frz and \clip for \c, and
values after a space were replaced by a default.
---
 crates/ass-renderer/src/animation/controller.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/animation/controller.rs b/crates/ass-renderer/src/animation/controller.rs
index 4abfa9c..61d7a80 100644
--- a/crates/ass-renderer/src/animation/controller.rs
+++ b/crates/ass-renderer/src/animation/controller.rs
@@ -64,8 +64,11 @@ impl AnimationController {
         // Parse modifier format: \property(from,to) or \property(to)
         // Examples: \fscx(100,200), \c(&H0000FF&,&HFF0000&), \pos(0,0,100,100)
 
+        // The name ends where the values begin, so that \fsp is not taken for \fs
+        let name = modifier.split('(').next().unwrap_or_default().trim();
+
         // Simplified parsing - in production would use proper parser
-        if modifier.starts_with("\\fscx") {
+        if name == "\\fscx" {
             // Font scale X animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -79,7 +82,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\fscy") {
+        } else if name == "\\fscy" {
             // Font scale Y animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -93,7 +96,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\fs") {
+        } else if name == "\\fs" {
             // Font size animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -107,7 +110,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\frz") || modifier.starts_with("\\fr") {
+        } else if name == "\\frz" || name == "\\fr" {
             // Rotation animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -121,7 +124,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\c") || modifier.starts_with("\\1c") {
+        } else if name == "\\c" || name == "\\1c" {
             // Color animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -135,7 +138,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\alpha") {
+        } else if name == "\\alpha" {
             // Alpha animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -196,7 +199,7 @@ fn extract_values(modifier: &str) -> Option<Vec<&str>> {
     let start = modifier.find('(')?;
     let rest = &modifier[start + 1..];
     let content = &rest[..rest.find(')')?];
-    Some(content.split(',').collect())
+    Some(content.split(',').map(str::trim).collect())
 }
 
 /// Parse ASS color format
-- 
2.43.0


From 65f5ffde9a6e3dfe75331f3ebd2d57d36339c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 89/94] fix: the matrix of a transform holds its shear

---
 crates/ass-renderer/src/utils/math.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/utils/math.rs b/crates/ass-renderer/src/utils/math.rs
index 24ee840..c747316 100644
--- a/crates/ass-renderer/src/utils/math.rs
+++ b/crates/ass-renderer/src/utils/math.rs
@@ -38,6 +38,13 @@ impl Matrix3x3 {
         }
     }
 
+    /// Create shear matrix
+    pub fn shear(x: f32, y: f32) -> Self {
+        Self {
+            m: [[1.0, x, 0.0], [y, 1.0, 0.0], [0.0, 0.0, 1.0]],
+        }
+    }
+
     /// Multiply two matrices
     pub fn multiply(&self, other: &Self) -> Self {
         let mut result = Self::identity();
@@ -105,7 +112,12 @@ impl Transform2D {
         let scale = Matrix3x3::scale(self.sx, self.sy);
         let rotate = Matrix3x3::rotate(self.rotation);
 
-        translate.multiply(&rotate).multiply(&scale)
+        let shear = Matrix3x3::shear(self.shear_x, self.shear_y);
+
+        translate
+            .multiply(&rotate)
+            .multiply(&shear)
+            .multiply(&scale)
     }
 
     /// Interpolate between two transforms
-- 
2.43.0


From 0af11c79f6f0de847d026ee7a684c6861e977aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 90/94] fix: atlas regions lie in the atlas, and caches keep
 what fits

A region wider than the atlas ran into the rows below it, and one that
did not fit gave up the rest of its row. Replacing a glyph of a full
cache dropped another one.
---
 crates/ass-renderer/src/utils/caches.rs | 37 ++++++++++++++++---------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/crates/ass-renderer/src/utils/caches.rs b/crates/ass-renderer/src/utils/caches.rs
index 82900e7..56acac2 100644
--- a/crates/ass-renderer/src/utils/caches.rs
+++ b/crates/ass-renderer/src/utils/caches.rs
@@ -58,7 +58,10 @@ impl GlyphCache {
 
     /// Insert a glyph into the cache
     pub fn insert(&mut self, key: GlyphKey, glyph: CachedGlyph) {
-        if self.cache.len() >= self.max_entries {
+        if self.max_entries == 0 {
+            return;
+        }
+        if self.cache.len() >= self.max_entries && !self.cache.contains_key(&key) {
             // Simple eviction: remove first entry
             if let Some(first_key) = self.cache.keys().next().cloned() {
                 self.cache.remove(&first_key);
@@ -115,7 +118,7 @@ impl TextureAtlas {
         Self {
             width,
             height,
-            data: vec![0; (width * height * 4) as usize],
+            data: vec![0; width as usize * height as usize * 4],
             allocations: Vec::new(),
             next_x: 0,
             next_y: 0,
@@ -125,18 +128,25 @@ impl TextureAtlas {
 
     /// Allocate a region in the atlas
     pub fn allocate(&mut self, width: u32, height: u32) -> Option<AtlasRegion> {
+        if width > self.width {
+            // Wider than any row
+            return None;
+        }
+
         // Simple row-based packing
-        if self.next_x + width > self.width {
+        let (mut x, mut y, mut row_height) = (self.next_x, self.next_y, self.row_height);
+        if width > self.width - x {
             // Move to next row
-            self.next_x = 0;
-            self.next_y += self.row_height;
-            self.row_height = 0;
+            x = 0;
+            y += row_height;
+            row_height = 0;
         }
 
-        if self.next_y + height > self.height {
+        if height > self.height - y {
             // Atlas is full
             return None;
         }
+        (self.next_x, self.next_y, self.row_height) = (x, y, row_height);
 
         let region = AtlasRegion {
             id: self.allocations.len() as u32,
@@ -155,12 +165,13 @@ impl TextureAtlas {
 
     /// Write data to a region
     pub fn write_region(&mut self, region: &AtlasRegion, data: &[u8]) {
-        let stride = self.width * 4;
-        for y in 0..region.height {
-            let src_offset = (y * region.width * 4) as usize;
-            let dst_offset = ((region.y + y) * stride + region.x * 4) as usize;
-            let src_end = src_offset + (region.width * 4) as usize;
-            let dst_end = dst_offset + (region.width * 4) as usize;
+        let stride = self.width as usize * 4;
+        let row = region.width as usize * 4;
+        for y in 0..region.height as usize {
+            let src_offset = y * row;
+            let dst_offset = (region.y as usize + y) * stride + region.x as usize * 4;
+            let src_end = src_offset + row;
+            let dst_end = dst_offset + row;
 
             if src_end <= data.len() && dst_end <= self.data.len() {
                 self.data[dst_offset..dst_end].copy_from_slice(&data[src_offset..src_end]);
-- 
2.43.0


From 8dcb1dca6cbe2957f4042adc6dd64e4dda83b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 91/94] fix: a free position lies within the bounds asked for

---
 crates/ass-renderer/src/collision/resolver.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/collision/resolver.rs b/crates/ass-renderer/src/collision/resolver.rs
index 700ce82..f97c86f 100644
--- a/crates/ass-renderer/src/collision/resolver.rs
+++ b/crates/ass-renderer/src/collision/resolver.rs
@@ -148,11 +148,12 @@ impl CollisionDetector for SmartCollisionResolver {
     ) -> Option<(f32, f32)> {
         // Try multiple positions to find a free spot
         let step = 10.0; // Search step size
+        let in_bounds = |y: f32| y >= bounds.y && y + bbox.height <= bounds.y + bounds.height;
 
         // First try moving down
         for y_offset in (0..20).map(|i| i as f32 * step) {
             let test_y = bbox.y + y_offset;
-            if test_y + bbox.height <= bounds.height {
+            if in_bounds(test_y) {
                 let test_bbox = BoundingBox::new(bbox.x, test_y, bbox.width, bbox.height);
                 if !self.check_collision(&test_bbox, existing) {
                     return Some((bbox.x, test_y));
@@ -163,7 +164,7 @@ impl CollisionDetector for SmartCollisionResolver {
         // Then try moving up
         for y_offset in (1..20).map(|i| i as f32 * step) {
             let test_y = bbox.y - y_offset;
-            if test_y >= 0.0 {
+            if in_bounds(test_y) {
                 let test_bbox = BoundingBox::new(bbox.x, test_y, bbox.width, bbox.height);
                 if !self.check_collision(&test_bbox, existing) {
                     return Some((bbox.x, test_y));
-- 
2.43.0


From e1b682d6d47d02e04d361ca21ea607d2923725d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 92/94] fix: processed tags read flags without a value and
 legacy alignments

---
 .../src/pipeline/tag_processor/mod.rs         | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
index 6b2f1ba..d3ca189 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
@@ -11,6 +11,7 @@ pub use types::{
     KaraokeStyle, LineBreakType, ProcessedTags, TransformData,
 };
 
+use crate::layout::convert_ssa_alignment;
 use crate::pipeline::transform::TransformAnimation;
 use crate::utils::RenderError;
 #[cfg(feature = "nostd")]
@@ -195,16 +196,16 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
 
         // Formatting tags
         "b" => {
-            processed.formatting.bold = Some(tag.args() != "0");
+            processed.formatting.bold = parse_flag(tag.args());
         }
         "i" => {
-            processed.formatting.italic = Some(tag.args() != "0");
+            processed.formatting.italic = parse_flag(tag.args());
         }
         "u" => {
-            processed.formatting.underline = Some(tag.args() != "0");
+            processed.formatting.underline = parse_flag(tag.args());
         }
         "s" => {
-            processed.formatting.strikeout = Some(tag.args() != "0");
+            processed.formatting.strikeout = parse_flag(tag.args());
         }
         "bord" => {
             if let Ok(width) = tag.args().parse::<f32>() {
@@ -246,11 +247,17 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
                 processed.formatting.blur = Some(blur);
             }
         }
-        "a" | "an" => {
+        "an" => {
             if let Ok(align) = tag.args().parse::<u8>() {
                 processed.formatting.alignment = Some(align);
             }
         }
+        "a" => {
+            // \a counts the columns like \an, with 4 for top and 8 for middle
+            if let Ok(align @ (1..=3 | 5..=7 | 9..=11)) = tag.args().parse::<u8>() {
+                processed.formatting.alignment = Some(convert_ssa_alignment(align));
+            }
+        }
         "q" => {
             if let Ok(wrap) = tag.args().parse::<u8>() {
                 processed.formatting.wrap_style = Some(wrap);
@@ -361,3 +368,8 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
 
     Ok(())
 }
+
+/// A flag without a value takes back what was set before it
+fn parse_flag(args: &str) -> Option<bool> {
+    (!args.is_empty()).then_some(args != "0")
+}
-- 
2.43.0


From cfaf1a097d1d5756bbf89bba86014719ae435ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 93/94] fix: setting a script info field starts the section it
 needs

---
 .../commands/script_info_commands/set.rs         | 13 ++-----------
 crates/ass-editor/core/document/section_text.rs  | 16 +++++++++-------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index 5ec009c..2c78085 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -4,7 +4,7 @@ use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::string::String;
 
 /// Command to set a script info property in the ASS document
 ///
@@ -27,16 +27,7 @@ impl SetScriptInfoCommand {
 
 impl EditorCommand for SetScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let range = match document.write_script_info(&self.property, &self.value)? {
-            Some(range) => range,
-            // There is no section yet, start the document with one
-            None => {
-                let section = format!("[Script Info]\n{}: {}\n", self.property, self.value);
-                let content = document.text();
-                let start = content.len() - content.trim_start_matches('\u{feff}').len();
-                document.insert_line(start, &section)?
-            }
-        };
+        let range = document.write_script_info(&self.property, &self.value)?;
         Ok(CommandResult::success_with_change(range, range.end))
     }
 
diff --git a/crates/ass-editor/core/document/section_text.rs b/crates/ass-editor/core/document/section_text.rs
index 1070d26..cfe97fa 100644
--- a/crates/ass-editor/core/document/section_text.rs
+++ b/crates/ass-editor/core/document/section_text.rs
@@ -185,10 +185,10 @@ impl EditorDocument {
         )
     }
 
-    /// Set a field of the first script info section, adding it if it is new
+    /// Set a field of the first script info section, adding what is not there
     ///
-    /// Returns the range of the line, or nothing without a script info section.
-    pub(crate) fn write_script_info(&mut self, key: &str, value: &str) -> Result<Option<Range>> {
+    /// Returns the range of what was written.
+    pub(crate) fn write_script_info(&mut self, key: &str, value: &str) -> Result<Range> {
         let key = key.trim();
         if key.is_empty()
             || key.starts_with(['[', ';', '#'])
@@ -202,21 +202,23 @@ impl EditorDocument {
         let line = format!("{key}: {value}");
         let content = self.text();
         let Some(section) = SectionText::find(&content, &["Script Info"]) else {
-            return Ok(None);
+            // There is no section yet, start the document with one
+            let start = content.len() - content.trim_start_matches('\u{feff}').len();
+            return self.insert_line(start, &format!("[Script Info]\n{line}\n"));
         };
         let existing = section
             .lines(&content)
             .find(|line| key_and_value(line.text).is_some_and(|(name, _)| name == key));
         let Some(existing) = existing else {
-            return self.insert_line(section.body, &line).map(Some);
+            return self.insert_line(section.body, &line);
         };
         self.replace(
             Range::new(Position::new(existing.start), Position::new(existing.end)),
             &line,
         )?;
-        Ok(Some(Range::new(
+        Ok(Range::new(
             Position::new(existing.start),
             Position::new(existing.start + line.len()),
-        )))
+        ))
     }
 }
-- 
2.43.0


From fd21ea0c943aa43a07e296c4b1cdef50cc5231f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:20 +0000
Subject: [PATCH 94/94] fix: characters before and after a place are whole
 characters

---
 crates/ass-editor/core/fluent/position.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/fluent/position.rs b/crates/ass-editor/core/fluent/position.rs
index 6a55214..63d055e 100644
--- a/crates/ass-editor/core/fluent/position.rs
+++ b/crates/ass-editor/core/fluent/position.rs
@@ -36,7 +36,12 @@ impl<'a> AtPosition<'a> {
 
     /// Delete a number of characters forward from position
     pub fn delete(self, count: usize) -> Result<&'a mut EditorDocument> {
-        let end = self.position.advance(count);
+        let from = Range::new(self.position, Position::new(self.document.len()));
+        let text = self.document.text_range(from)?;
+        let bytes: usize = text.chars().take(count).map(char::len_utf8).sum();
+        // Characters that are not there are past the end
+        let missing = count.saturating_sub(text.chars().count());
+        let end = self.position.advance(bytes).advance(missing);
         let range = Range::new(self.position, end);
         self.document.delete(range)?;
         Ok(self.document)
@@ -44,8 +49,10 @@ impl<'a> AtPosition<'a> {
 
     /// Delete characters backward from position (backspace)
     pub fn backspace(self, count: usize) -> Result<&'a mut EditorDocument> {
-        let start = self.position.retreat(count);
-        let range = Range::new(start, self.position);
+        let before = Range::new(Position::start(), self.position);
+        let text = self.document.text_range(before)?;
+        let bytes: usize = text.chars().rev().take(count).map(char::len_utf8).sum();
+        let range = Range::new(self.position.retreat(bytes), self.position);
         self.document.delete(range)?;
         Ok(self.document)
     }
-- 
2.43.0

