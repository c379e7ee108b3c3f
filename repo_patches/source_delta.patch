From deafaeae59ff1926064429934d8c001a97166a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:26 +0000
Subject: [PATCH 01/43] fix: do not start a new element for an ignored sub tag

---
 .../structured_document/grobid_training_tei.py                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 42754dc..88c9800 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -478,6 +478,7 @@ def _lines_to_tei(
                     'ignoring sub tag outside main path: %s (%s)',
                     sub_tag, sub_required_path
                 )
+                sub_prefix = None
                 sub_tag = None
                 sub_full_tag = None
                 sub_required_path = []
-- 
2.43.0


From 2d11831fee7f3d959cf1734272b96fd8b9db4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:26 +0000
Subject: [PATCH 02/43] fix: keep the sub tag after a line break within the sub
 element

---
 .../structured_document/grobid_training_tei.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 88c9800..5c6e75c 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -312,7 +312,7 @@ def _iter_extract_lines_from_element(
 
     if not previous_tag:
         line_buffer.reset_next_tag()
-    else:
+    elif parent_element.tag != TeiTagNames.LB:
         line_buffer.reset_next_sub_tag()
     line_buffer.append_text(parent_element.tail)
 
-- 
2.43.0


From aa2c4a194ff0caf589f50ae0740b5b543fe8f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:26 +0000
Subject: [PATCH 03/43] fix: do not repeat the tokens of previous lines when
 removing untagged tokens

---
 .../structured_document/grobid_training_tei.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 5c6e75c..d10f4e0 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -707,9 +707,9 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
 
     def remove_all_untagged(self):
         updated_lines = []
-        current_result_line_tokens = []
         output_enabled = True
         for line in self._lines:
+            current_result_line_tokens = []
             for token in line.tokens:
                 if isinstance(token, TeiSpace):
                     if output_enabled:
-- 
2.43.0


From 58459573beeeb213fdaa4b3db185dc2edf57a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:26 +0000
Subject: [PATCH 04/43] fix: recognise and keep line breaks in documents with a
 TEI namespace

---
 .../structured_document/grobid_training_tei.py     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index d10f4e0..045cfc2 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -268,6 +268,14 @@ def _node_to_tag_expression(node):
     return '{tag}[@{key}="{value}"]'.format(tag=node.tag, key=key, value=value)
 
 
+def _is_line_break(element: etree.Element) -> bool:
+    return etree.QName(element).localname == TeiTagNames.LB
+
+
+def _create_line_break(parent: etree.Element) -> etree.Element:
+    return E(etree.QName(etree.QName(parent).namespace, TeiTagNames.LB).text)
+
+
 def has_direct_text(element: etree.Element) -> bool:
     if not is_blank(element.text):
         return True
@@ -297,7 +305,7 @@ def _iter_extract_lines_from_element(
     LOGGER.debug('current_path: %s', current_path)
 
     for child_element in parent_element:
-        if child_element.tag == TeiTagNames.LB:
+        if _is_line_break(child_element):
             yield line_buffer.flush()
 
         child_path = current_path + [_node_to_tag_expression(child_element)]
@@ -312,7 +320,7 @@ def _iter_extract_lines_from_element(
 
     if not previous_tag:
         line_buffer.reset_next_tag()
-    elif parent_element.tag != TeiTagNames.LB:
+    elif not _is_line_break(parent_element):
         line_buffer.reset_next_sub_tag()
     line_buffer.append_text(parent_element.tail)
 
@@ -451,7 +459,7 @@ def _lines_to_tei(
     pending_reset_tag_values = set()
     for line_index, line in enumerate(lines):
         if line_index:
-            writer.append(E(TeiTagNames.LB))
+            writer.append(_create_line_break(parent))
         for token in line.tokens:
             main_full_tag = token.attrib.get(TAG_ATTRIB_NAME)
             if not main_full_tag:
-- 
2.43.0


From 3738e548eb5f43f11f358bed22ee26b1d51d5f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:12 +0000
Subject: [PATCH 05/43] fix: pass --max-line-number-gap on to the line number
 annotator

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 4666bd2..dba2967 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -596,6 +596,7 @@ class AbstractAnnotatePipelineFactory(ABC):
             use_line_number_annotator=opt.use_line_number_annotator,
             line_number_annotator_config=TextLineNumberAnnotatorConfig(
                 min_line_number=opt.min_line_numbers_per_page,
+                max_line_number_gap=opt.max_line_number_gap,
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-- 
2.43.0


From 1c59a8424bd272baca8c0c687a3c5bae3c564bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:12 +0000
Subject: [PATCH 06/43] fix: parse --min-line-number-ratio as a number

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index dba2967..5460d4d 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -237,7 +237,7 @@ def add_annotation_pipeline_arguments(
         ])
     )
     line_no_group.add_argument(
-        '--min-line-number-ratio', type=str,
+        '--min-line-number-ratio', type=float,
         default=DEFAULT_LINE_NUMBER_RATIO_THRESHOLD,
         help=' '.join([
             'minimum ratio of line number candidates vs non-line number tokens',
-- 
2.43.0


From 8dec489ad5586117428a6fe8d2629f49f64e8edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:12 +0000
Subject: [PATCH 07/43] fix: restore the original tags after annotating sub
 tags only

---
 sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
index e214e7b..f103867 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/sub_tag_annotator.py
@@ -43,7 +43,6 @@ class SubTagOnlyAnnotator(SimpleMatchingAnnotator):
         super().annotate(structured_document)
         # restore original tags (but now with auto-annotated sub-tags)
         for token, preserved_tag in token_preserved_tags:
-            preserved_tag = structured_document.get_tag_or_preserved_tag(token)
             LOGGER.debug('restoring preserved tag: %r -> %r', token, preserved_tag)
             structured_document.set_tag_only(token, preserved_tag)
         return structured_document
-- 
2.43.0


From 7822277e8c5bca73df423e61127dde550c291876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 08/43] fix: replace the preserved tags of all tokens of a line

---
 .../annotation/replace_tags_annotator.py                 | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py
index 7db9961..1658a49 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/replace_tags_annotator.py
@@ -35,10 +35,13 @@ class ReplaceTagsPostProcessingAnnotator(AbstractAnnotator):
         super().__init__()
 
     def annotate(self, structured_document: GrobidTrainingTeiStructuredDocument):
-        all_tokens_iterable = iter_all_tokens_excluding_space(structured_document)
+        # setting a tag may clear the preserved tags of the line, get all of the tags first
+        tokens_with_tag = [
+            (token, structured_document.get_tag_or_preserved_tag(token))
+            for token in iter_all_tokens_excluding_space(structured_document)
+        ]
         ignored_token_tag_values = set()
-        for token in all_tokens_iterable:
-            tag = structured_document.get_tag_or_preserved_tag(token)
+        for token, tag in tokens_with_tag:
             tag_prefix, tag_value = split_tag_prefix(tag)
             if not tag_value or tag_value not in self.config.replaced_tag_by_tag:
                 ignored_token_tag_values.add(tag_value)
-- 
2.43.0


From ee1402ba0b0b4fbf3c4e65895b5a587e4021587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:04 +0000
Subject: [PATCH 09/43] fix: keep the settings of the selected sub fields

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 5460d4d..5655a43 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -340,7 +340,8 @@ def get_sub_field_for_key_or_none(key: str) -> Optional[str]:
     sub_prefix = field_name + XmlMappingSuffix.SUB + '.'
     if not key.startswith(sub_prefix):
         return None
-    return key[len(sub_prefix):]
+    # the remainder may include the name of a setting, e.g. "sub1.extract-regex"
+    return key[len(sub_prefix):].split('.', maxsplit=1)[0]
 
 
 def is_key_selected_sub_fields_or_no_sub_field(
-- 
2.43.0


From b62704050889c143d8217caed8d5b8e48e81c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 10/43] fix: apply the document checks to documents without
 target annotations

The checks raised an error (ending the run, or leaving out the document) when no value at all was
found in the XML file, rather than failing or passing the document.
---
 sciencebeam_trainer_grobid_tools/annotation/checks.py          | 2 +-
 sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/checks.py b/sciencebeam_trainer_grobid_tools/annotation/checks.py
index 2b05d30..71e3d93 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/checks.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/checks.py
@@ -143,7 +143,7 @@ def is_structured_document_passing_checks(
     require_matching_fields = set(require_matching_fields or set()) | set(required_fields or set())
     if not require_matching_fields:
         return True
-    if not target_annotations:
+    if target_annotations is None:
         raise RuntimeError('target_annotations required')
     required_value_by_name = get_required_target_value_by_name(
         target_annotations=target_annotations,
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py b/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
index 4dfe9f1..8ec1cc3 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_segmentation.py
@@ -119,7 +119,7 @@ def is_segmentation_structured_document_passing_checks(
     require_matching_fields = set(require_matching_fields or set()) | set(required_fields or set())
     if not require_matching_fields:
         return True
-    if not target_annotations:
+    if target_annotations is None:
         raise RuntimeError('target_annotations required')
     required_value_by_name = get_required_target_value_by_name(
         target_annotations=target_annotations,
-- 
2.43.0


From bb528674dcb3b928c253848cef8572fe8a90aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:44 +0000
Subject: [PATCH 11/43] fix: keep the character after a part extracted by a
 regular expression

The character following the extracted part was left out of the remaining values.
---
 .../core/annotation/target_annotation.py                    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index 9b9449a..c3076aa 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -286,13 +286,13 @@ def extract_using_regex(s, compiled_pattern):
         get_logger().debug('extract match: %d:%d, %s', m_start, m_end, m_text)
         if result is None:
             result = []
-        if start < m_start:
+        if s[start:m_start].strip():
             result.append(s[start:m_start].strip())
         result.append(m_text)
-        start = m_end + 1
+        start = m_end
     if result is None:
         return s
-    if start < len(s):
+    if s[start:].strip():
         result.append(s[start:].strip())
     if len(result) == 1:
         return result[0]
-- 
2.43.0


From cd309b14ace8326f9f4efd1ffcf56544877b1558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:44 +0000
Subject: [PATCH 12/43] fix: report the available mappings for an unrecognised
 document type

The mapping is a dictionary; building the error message itself failed.
---
 .../annotation/target_annotation.py                             | 2 +-
 .../core/annotation/target_annotation.py                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index 35ff79e..3a76f70 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -78,7 +78,7 @@ def is_wildcard_children_xpaths(children_xpaths: List[str]) -> bool:
 def xml_root_to_target_annotations(xml_root, xml_mapping):
     if xml_root.tag not in xml_mapping:
         raise Exception("unrecognised tag: {} (available: {})".format(
-            xml_root.tag, xml_mapping.sections())
+            xml_root.tag, sorted(xml_mapping.keys()))
         )
 
     mapping = xml_mapping[xml_root.tag]
diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index c3076aa..4521b4c 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -330,7 +330,7 @@ def extract_sub_annotations(parent_node, sub_xpaths, mapping, parent_key):
 def xml_root_to_target_annotations(xml_root, xml_mapping):
     if xml_root.tag not in xml_mapping:
         raise Exception("unrecognised tag: {} (available: {})".format(
-            xml_root.tag, xml_mapping.sections())
+            xml_root.tag, sorted(xml_mapping.keys()))
         )
 
     mapping = xml_mapping[xml_root.tag]
-- 
2.43.0


From 54d911cd53b50ad788f0c00032e79725fe207568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:52 +0000
Subject: [PATCH 13/43] fix: separate the words of adjacent elements after
 multi line text

A text with a line feed was not recognised as ending with a word, its last word was joined with the
first word of the next element.
---
 .../annotation/target_annotation.py                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index 3a76f70..46cb8ea 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -49,7 +49,7 @@ def contains_raw_text(element: etree.Element) -> bool:
 
 
 def is_ends_with_word(text: str) -> bool:
-    return re.match(r'.*\w$', text) is not None
+    return re.search(r'\w$', text) is not None
 
 
 def is_starts_with_word(text: str) -> bool:
-- 
2.43.0


From 28c1ef646ef56283774b22af3a73922013a4d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:21 +0000
Subject: [PATCH 14/43] fix: do not fail on an empty first or last page element

Blank values were dropped, leaving fewer than two values to build the range of page numbers from.
---
 .../core/annotation/target_annotation.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index 4521b4c..13e5b2f 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -196,7 +196,7 @@ def extract_children_range(parent, children_range):
             parent, [range_item.get('min'), range_item.get('max')]
         )
         if len(temp_values) == 2:
-            temp_values = strip_all(temp_values)
+            temp_values = [s.strip() for s in temp_values]
             if all(s.isdigit() for s in temp_values):
                 num_values = [int(s) for s in temp_values]
                 range_values = [str(x) for x in range(num_values[0], num_values[1] + 1)]
-- 
2.43.0


From a6d57b71a496c9f4cde7d0883b4ab5360a42b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:14 +0000
Subject: [PATCH 15/43] fix: close the element of an end tag after closing the
 elements within

When repairing an XML file, an end tag only closed the unclosed elements within its element but not
the element itself, so that the text after it was moved into the element.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9c76fed..f684942 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -207,6 +207,7 @@ class FixingHtmlParser(HTMLParser):
                 tag, self._current_tag
             )
             self._close_current_element()
+        self._close_current_element()
 
     def handle_data(self, data):
         LOGGER.debug('endtag: data=%r', data)
-- 
2.43.0


From 214a5a5833aff3144f56546db4e00f20094a2724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:14 +0000
Subject: [PATCH 16/43] fix: do not close the root element on an unrelated end
 tag

When repairing an XML file, an end tag without start tag closed the root element. The following
text was then outside the root element and the result could not be parsed.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index f684942..9434d14 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -195,6 +195,9 @@ class FixingHtmlParser(HTMLParser):
             self._close_current_element()
             return
         if tag not in self.tag_stack:
+            if len(self.tag_stack) == 1:
+                LOGGER.warning('end tag not matching root element, ignoring tag=%r', tag)
+                return
             LOGGER.warning(
                 'end tag tag=%r not matching any open element, closing tag=%r',
                 tag, self._current_tag
-- 
2.43.0


From 0e5351750f6cca03bdf19beae27ec7c57c350009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:14 +0000
Subject: [PATCH 17/43] fix: repair XML files with attributes without value

The value of such an attribute is None, which could not be quoted.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9434d14..94a055b 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -173,7 +173,7 @@ class FixingHtmlParser(HTMLParser):
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
-            quoted_value = xml.sax.saxutils.quoteattr(value)
+            quoted_value = xml.sax.saxutils.quoteattr(value or '')
             self.buffer.write(f' {key}={quoted_value}')
         self.buffer.write('>')
         self.tag_stack.append(tag)
-- 
2.43.0


From 919b9fae45f57c72a69ac1f810e4c902e2679ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:14 +0000
Subject: [PATCH 18/43] fix: keep the case of element names when repairing an
 XML file

The names were converted to lower case, elements like listBibl or figDesc were not recognised
anymore.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 94a055b..bd984d6 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import re
 import xml.sax.saxutils
 from contextlib import contextmanager
 from html.parser import HTMLParser
@@ -171,6 +172,7 @@ class FixingHtmlParser(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
+        tag = self._get_tag_with_original_case(tag)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
             quoted_value = xml.sax.saxutils.quoteattr(value or '')
@@ -178,6 +180,11 @@ class FixingHtmlParser(HTMLParser):
         self.buffer.write('>')
         self.tag_stack.append(tag)
 
+    def _get_tag_with_original_case(self, tag: str) -> str:
+        # the HTMLParser will pass in all tags in lower case
+        m = re.match(r'<([^\s/>]+)', self.get_starttag_text() or '')
+        return m.group(1) if m and m.group(1).lower() == tag else tag
+
     def _close_current_element(self):
         tag = self.tag_stack.pop()
         LOGGER.debug('endtag: tag=%r', tag)
@@ -185,7 +192,7 @@ class FixingHtmlParser(HTMLParser):
 
     @property
     def _current_tag(self):
-        return self.tag_stack[-1]
+        return self.tag_stack[-1].lower()
 
     def handle_endtag(self, tag):
         if not self.tag_stack:
@@ -194,7 +201,7 @@ class FixingHtmlParser(HTMLParser):
         if tag == self._current_tag:
             self._close_current_element()
             return
-        if tag not in self.tag_stack:
+        if tag not in [open_tag.lower() for open_tag in self.tag_stack]:
             if len(self.tag_stack) == 1:
                 LOGGER.warning('end tag not matching root element, ignoring tag=%r', tag)
                 return
-- 
2.43.0


From 3fa9be09ec0228a7cf47a927250a382288d79195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 19/43] fix: keep the attributes of the container element

---
 .../structured_document/grobid_training_tei.py                  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 045cfc2..2710848 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -553,7 +553,9 @@ def _updated_tei_with_lines(
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
+    container_attrib = dict(container_node.attrib)
     container_node.clear()
+    container_node.attrib.update(container_attrib)
     _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
     return updated_root
 
-- 
2.43.0


From db1cdb37756eaaba7fcfb12d19cb7390a5dfa513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:50 +0000
Subject: [PATCH 20/43] fix: do not fail to repair documents with an encoding
 declaration

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index bd984d6..e9ae871 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -232,7 +232,8 @@ class FixingHtmlParser(HTMLParser):
 def get_fixed_xml_str(xml_str: str) -> str:
     try:
         # return passed in xml if it is valid
-        etree.fromstring(xml_str)
+        # (as bytes, because lxml does not accept an encoding declaration in a str)
+        etree.fromstring(xml_str.encode('utf-8'))
         LOGGER.debug('passed in xml is valid, returning as is')
         return xml_str
     except etree.XMLSyntaxError:
-- 
2.43.0


From ce63e2444df867d24202fa751040d38d38d86d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:50 +0000
Subject: [PATCH 21/43] fix: keep elements within title elements when repairing
 an XML file

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index e9ae871..8dcdc53 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -219,6 +219,10 @@ class FixingHtmlParser(HTMLParser):
             self._close_current_element()
         self._close_current_element()
 
+    def set_cdata_mode(self, *_args, **_kwargs):
+        # elements with HTML specific content rules (e.g. title) are regular elements in XML
+        pass
+
     def handle_data(self, data):
         LOGGER.debug('endtag: data=%r', data)
         self.buffer.write(xml.sax.saxutils.escape(data))
-- 
2.43.0


From 94dd4a11cbd09087504bc95e6c8a4ea6c239eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:50 +0000
Subject: [PATCH 22/43] fix: keep the text of CDATA sections when repairing an
 XML file

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 8dcdc53..7d97480 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -227,6 +227,10 @@ class FixingHtmlParser(HTMLParser):
         LOGGER.debug('endtag: data=%r', data)
         self.buffer.write(xml.sax.saxutils.escape(data))
 
+    def unknown_decl(self, data):
+        if data.startswith('CDATA['):
+            self.handle_data(data[len('CDATA['):])
+
     def close(self) -> None:
         super().close()
         while self.tag_stack:
-- 
2.43.0


From 96785352882a862b31a76042172bcde483041607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 23/43] fix: keep the text following an element that is
 replaced with its text

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f3b4917..c2c3d63 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -222,6 +222,9 @@ def add_text_to_tail_prefix(current: etree.Element, text: str):
 
 def replace_element_with_text(current: etree.Element, text: str):
     add_text_to_previous(current, text)
+    for child in list(current):
+        current.addprevious(child)
+    add_text_to_previous(current, current.tail or '')
     current.getparent().remove(current)
 
 
-- 
2.43.0


From 028700a40673acdec581f6a295fa63ddc53559b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 24/43] fix: keep the order of text when adding an element
 after a comment or link

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index c2c3d63..e7f9058 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -229,6 +229,8 @@ def replace_element_with_text(current: etree.Element, text: str):
 
 
 def add_next_sibling_element(element: etree.Element, new_element: etree.Element):
+    new_element.tail = (new_element.tail or '') + (element.tail or '')
+    element.tail = None
     element.getparent().insert(
         element.getparent().index(element) + 1,
         new_element
-- 
2.43.0


From cc3c7306bfb8ec24e55bccb12cc7e3cdcd775c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 25/43] fix: keep the order of text when changing elements with
 child elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index e7f9058..d34ea36 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -418,6 +418,9 @@ def change_annotation_to_matching_text(
         replace_element_with_text(element, text)
         return
     start, end = start_end
+    if len(element):
+        # the remaining text is followed by child elements, it can't be moved after the element
+        end = len(text)
     matching_text = text[start:end]
     LOGGER.debug('matching: %s (%r, %s)', start_end, matching_text, find_start_end_fn.__name__)
     element.text = matching_text
@@ -441,6 +444,9 @@ def add_annotation_to_element_text_if_matching(
     text = element.text
     if not text:
         return False
+    if as_next_sibling and len(element):
+        # the text following the match can't be moved after the child elements
+        return False
     start_end = find_start_end_fn(text)
     if not start_end:
         LOGGER.debug('%s not found in: %r', find_start_end_fn.__name__, text)
-- 
2.43.0


From 0478ef7e43e0e8939bc678991201c9c0386c68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 26/43] fix: do not fail or lose text for DOI elements without
 text or with child elements

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index d34ea36..181a949 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -632,6 +632,8 @@ def fix_doi(reference_element: etree.Element):
 def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element):
     for doi_element in reference_element.xpath(JatsXpaths.DOI):
         previous_text = get_previous_text(doi_element)
+        if not previous_text or not doi_element.text or len(doi_element):
+            continue
         start_end = find_doi_url_prefix_valid_start_end(previous_text)
         if not start_end:
             LOGGER.debug('not matching doi url prefix: %r', previous_text)
-- 
2.43.0


From cb46dc3289f79ca07f4c57e3837ed3cbbebfe137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 27/43] fix: only treat a DOI as link if it directly follows
 the URL prefix

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 181a949..54a8c05 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -340,7 +340,7 @@ def find_doi_start_end(text: str) -> Optional[Tuple[int, int]]:
 
 
 def find_doi_url_prefix_valid_start_end(text: str) -> Optional[Tuple[int, int]]:
-    return find_re_pattern_start_end(text, DOI_URL_PREFIX_PATTERN)
+    return find_re_pattern_start_end(text, DOI_URL_PREFIX_PATTERN + '$')
 
 
 def find_pii_valid_start_end(text: str) -> Optional[Tuple[int, int]]:
-- 
2.43.0


From cc65732e34b2ac62576c96d7d12e239c402ca043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 28/43] fix: closing character for left double quote

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 54a8c05..8bb1768 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -72,7 +72,7 @@ LEFT_QUOTE_CHARS = {'"', SpecialChars.LSQUO, SpecialChars.LDQUO}
 RIGHT_BY_LEFT_QUOTE_CHAR = {
     '"': '"',
     SpecialChars.LSQUO: SpecialChars.RSQUO,
-    SpecialChars.LDQUO: SpecialChars.RSQUO
+    SpecialChars.LDQUO: SpecialChars.RDQUO
 }
 
 
-- 
2.43.0


From 4d1298262bb4a89a5369966bcbf76881976451dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 29/43] fix: do not annotate numbers following a comma as PII

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 8bb1768..34f1b73 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -80,7 +80,7 @@ RIGHT_BY_LEFT_QUOTE_CHAR = {
 DOI_PATTERN = r'\b(10\.\d{4,}(?:\.\d{1,})*/.+)'
 
 # https://en.wikipedia.org/wiki/Publisher_Item_Identifier
-PII_VALID_PATTERN = r'\b([S,B]\W*(?:[0-9xX]\W*){15,}[0-9xX])'
+PII_VALID_PATTERN = r'\b([SB]\W*(?:[0-9xX]\W*){15,}[0-9xX])'
 PII_OTHER_PATTERN = r'\b(?:doi\:)?(\S{5,})\s*\[pii\]'
 
 PMID_FIX_PATTERN = r'(?:PMID\s*\:\s*)?\b(\d{1,10})\b'
-- 
2.43.0


From cbda77a613164ef2b3bf7d5750f46316503c8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 30/43] fix: annotate an identifier found in comments only once

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 34f1b73..3121339 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -517,7 +517,7 @@ def add_annotation_to_element_if_matching(
                 create_element_fn=create_element_fn,
                 as_next_sibling=True
             ):
-                break
+                return True
     return False
 
 
-- 
2.43.0


From 940fb580a87a0b2a6730fa1816c181ef62e37a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 31/43] fix: do not overwrite the source file if the output
 path is spelled differently

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 3121339..f9d4b67 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -886,7 +886,7 @@ class FixJatsProcessor:
     def process_source_file(self, source_file: str):
         try:
             output_file = self.get_output_file_for_source_file(source_file)
-            assert output_file != source_file
+            assert os.path.abspath(output_file) != os.path.abspath(source_file)
             fix_jats_xml_file(source_file, output_file, log_file_enabled=self.log_file_enabled)
         except Exception as exc:
             raise RuntimeError('failed to process %r due to %r' % (source_file, exc)) from exc
-- 
2.43.0


From 54a02e75f036496ad67ff8fdc7a2c5e73b8be3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:32 +0000
Subject: [PATCH 32/43] fix: do not share the temporary files of a file being
 processed between workers

---
 .../auto_annotate_figure.py                        |  8 +++-----
 .../auto_annotate_fulltext.py                      |  7 +++----
 .../auto_annotate_utils.py                         | 14 ++++++++------
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
index 8a14e86..d08d431 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
@@ -3,7 +3,7 @@ from __future__ import absolute_import
 import argparse
 import logging
 import os
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from tempfile import TemporaryDirectory
 from typing import Iterator, List
 
@@ -132,10 +132,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
                 self.tag_to_tei_path_mapping[field] = 'note[@type="%s"]' % field
         self.annotator_config.use_sub_annotations = True
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
index 97bb52e..a12f682 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 
 import argparse
 import logging
+from contextlib import ExitStack
 from typing import List
 
 from .core.annotation.annotator import AbstractAnnotator, Annotator
@@ -213,10 +214,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
         self.expand_to_previous_untagged_lines = opt.expand_to_previous_untagged_lines
         self.expand_to_following_untagged_lines = opt.expand_to_following_untagged_lines
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 5655a43..c715384 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -601,7 +601,6 @@ class AbstractAnnotatePipelineFactory(ABC):
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-        self.file_exit_stack = ExitStack()
 
     @abstractmethod
     def get_annotator(self, source_url: str):
@@ -644,17 +643,20 @@ class AbstractAnnotatePipelineFactory(ABC):
             target_annotations=target_annotations
         )
 
-    def get_final_source_url(self, source_url: str) -> str:
+    def get_final_source_url(
+            self,
+            source_url: str,
+            file_exit_stack: ExitStack) -> str:  # pylint: disable=unused-argument
         return source_url
 
     def auto_annotate(self, source_url: str):
-        with self.file_exit_stack:
-            self._auto_annotate(source_url)
+        with ExitStack() as file_exit_stack:
+            self._auto_annotate(source_url, file_exit_stack)
 
-    def _auto_annotate(self, source_url: str):
+    def _auto_annotate(self, source_url: str, file_exit_stack: ExitStack):
         try:
             output_xml_path = self.get_tei_xml_output_file_for_source_file(source_url)
-            final_source_url = self.get_final_source_url(source_url)
+            final_source_url = self.get_final_source_url(source_url, file_exit_stack)
             annotator = self.get_annotator(final_source_url)
             annotate_structured_document(
                 final_source_url,
-- 
2.43.0


From 8169a02e4e364cede108ed781c339e61df2d4a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:07 +0000
Subject: [PATCH 33/43] fix: use the position within the whole text for parts
 found in long text

---
 .../utils/fuzzy.py                             | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
index 4596f99..fd27b8a 100644
--- a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
+++ b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
@@ -381,13 +381,16 @@ def get_str_left_strided_matching_blocks_chunks(
     max_offset = stride
     while start_index < len(haystack):
         LOGGER.debug('start_index: %d, threshold: %.3f', start_index, threshold)
-        matching_blocks = get_str_matching_blocks_using_sequence_matcher(
-            haystack[start_index:(start_index + max_length)],
-            needle
+        matching_blocks = get_offset_matching_blocks(
+            get_str_matching_blocks_using_sequence_matcher(
+                haystack[start_index:(start_index + max_length)],
+                needle
+            ),
+            a_offset=start_index
         )
         if (
             not matching_blocks
-            or matching_blocks[0][0] > max_offset
+            or matching_blocks[0][0] > start_index + max_offset
             or not matching_blocks[0][2]
         ):
             start_index += stride
@@ -456,12 +459,7 @@ def get_str_left_strided_matching_blocks_chunks(
                 )
                 for remaining_matching_blocks in remaining_matching_blocks_chunks
             ]
-        if not start_index:
-            return [matching_blocks]
-        return [[
-            (ai + start_index, bi, size)
-            for ai, bi, size in matching_blocks
-        ]]
+        return [matching_blocks]
     return []
 
 
-- 
2.43.0


From 788d43e285f2a83c9d6d8014f9da3d1de1ea2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:53 +0000
Subject: [PATCH 34/43] fix: do not tag the first word of the next line because
 of the space before it

---
 .../core/annotation/matching_annotator.py                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
index 539f3cb..2b276eb 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
@@ -437,7 +437,8 @@ class TargetAnnotationMatchFinder(object):
                             sequence,
                             next_choice,
                             fm_next.a_index_range(),
-                            fm_next.b_index_range()
+                            # the text of the next choice follows the joining space
+                            offset_range_by(fm_next.b_index_range(), -1)
                         )
                         matched_choices.add(choice)
                         get_logger().debug('found next match: %s', sm)
@@ -483,7 +484,8 @@ class TargetAnnotationMatchFinder(object):
                             sequence,
                             next_choice,
                             offset_range_by(fm_next.b_index_range(), start_index),
-                            fm_next.a_index_range()
+                            # the text of the next choice follows the joining space
+                            offset_range_by(fm_next.a_index_range(), -1)
                         )
                         get_logger().debug('found next match: %s', sm)
                         matched_choices.add(next_choice)
-- 
2.43.0


From 8df78bed8d5defd8eb87745e77fa337875cb63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:13 +0000
Subject: [PATCH 35/43] fix: consider the end of all parts of a value when
 grouping them

---
 .../annotation/simple_matching_annotator.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
index 90a53ca..a75546a 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
@@ -171,7 +171,7 @@ class IndexRangeCluster:
 
     @property
     def end(self):
-        return self.index_ranges[-1][1]
+        return max(end for _, end in self.index_ranges)
 
     @property
     def length(self):
-- 
2.43.0


From d1df3145f9440f709df92ba5b7dc5a8cb97f1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:46 +0000
Subject: [PATCH 36/43] fix: find the words of a sub annotation after text that
 changes length in lower case

---
 .../annotation/simple_matching_annotator.py                 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
index a75546a..3ef9d7b 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
@@ -526,8 +526,10 @@ class SimpleMatchingAnnotator(AbstractAnnotator):
         LOGGER.debug('processing sub annotations: %s', sub_annotations)
         tokens = list(text.iter_tokens_between(index_range))
         LOGGER.debug('sub_tokens: %s', tokens)
-        sub_text = SequencesText([SequenceWrapper(structured_document, tokens)])
-        sub_text_str = str(sub_text).lower()
+        sub_text = SequencesText([SequenceWrapper(
+            structured_document, tokens, str_filter_f=str.lower
+        )])
+        sub_text_str = str(sub_text)
         LOGGER.debug('sub_text_str: %r', sub_text_str)
         for sub_annotation in sub_annotations:
             sub_tag_name = sub_annotation.name
-- 
2.43.0


From 3a7c1fe57ea32b1142d536fd3f1849d99e61117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:53 +0000
Subject: [PATCH 37/43] fix: use the directory of the file list as the default
 base path

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 1b61985..6e3cdfe 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -154,7 +154,10 @@ class FileList(object):
 
 def load_file_list_from_config(file_list_config, limit):
     return FileList(
-        base_path=file_list_config['base_path'],
+        base_path=(
+            file_list_config['base_path']
+            or os.path.dirname(file_list_config['file_list'])
+        ),
         file_list=load_file_list(
             file_list_config['file_list'],
             column=file_list_config['file_column'],
-- 
2.43.0


From d1bb95b5da0b3a6f52f8545d7708fbbf924aa76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:53 +0000
Subject: [PATCH 38/43] fix: do not truncate a source file by copying it onto
 itself

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 6e3cdfe..a1c6aae 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -250,6 +250,8 @@ def copy_file(source_filename, output_filename):
         'copy_file: source_filename=%s, output_filename=%s',
         source_filename, output_filename
     )
+    if os.path.realpath(source_filename) == os.path.realpath(output_filename):
+        raise ValueError('source and output are the same file: %s' % source_filename)
     with FileSystems.open(source_filename) as source_fp:
         mkdirs_if_not_exists(os.path.dirname(output_filename))
         with FileSystems.create(output_filename) as output_fp:
-- 
2.43.0


From 5d402c4f9bd2dc222d092d57b567d504a9cb5d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:53 +0000
Subject: [PATCH 39/43] fix: recognise preserved page numbers of loaded
 documents

---
 .../annotation/segmentation_annotator.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index 940d378..dc1bd55 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -133,7 +133,7 @@ def _get_line_token_tag_values(*args, **kwargs) -> List[Optional[str]]:
 def _get_line_token_tags_or_preserved_tags(
         structured_document: GrobidTrainingTeiStructuredDocument, line) -> List[str]:
     return [
-        structured_document.get_tag_or_preserved_tag(token)
+        strip_tag_prefix(structured_document.get_tag_or_preserved_tag(token))
         for token in structured_document.get_tokens_of_line(line)
     ]
 
-- 
2.43.0


From b0b88d817820bd16dd5a660ceb43b58cbe37d631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:53 +0000
Subject: [PATCH 40/43] fix: keep the line break at the end of a document

---
 .../grobid_training_tei.py                    | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 2710848..482383d 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -545,7 +545,8 @@ def _updated_tei_with_lines(
         lines: list,
         tag_to_tei_path_mapping: Dict[str, str],
         container_node_path: str = 'text/front',
-        namespaces: Dict[str, str] = None):
+        namespaces: Dict[str, str] = None,
+        has_trailing_line_break: bool = False):
     updated_root = copy.deepcopy(original_root)
     container_node = updated_root.find(container_node_path, namespaces=namespaces)
     get_logger().debug('container_node: %s', container_node)
@@ -556,7 +557,11 @@ def _updated_tei_with_lines(
     container_attrib = dict(container_node.attrib)
     container_node.clear()
     container_node.attrib.update(container_attrib)
-    _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
+    _lines_to_tei(
+        container_node,
+        lines + [TeiLine([])] if has_trailing_line_break else lines,
+        tag_to_tei_path_mapping
+    )
     return updated_root
 
 
@@ -575,10 +580,16 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
             else DEFAULT_TAG_TO_TEI_PATH_MAPPING
         )
         self._namespaces = namespaces
+        container_elements = root.findall('./%s' % container_node_path, namespaces=namespaces)
         self._lines = list(_iter_extract_lines_from_container_elements(
-            root.findall('./%s' % container_node_path, namespaces=namespaces),
+            container_elements,
             root_paths=self._tag_to_tei_path_mapping.values()
         ))
+        self._has_trailing_line_break = 0 < len(self._lines) <= sum(
+            _is_line_break(element)
+            for container_element in container_elements
+            for element in container_element.iterdescendants()
+        )
         if preserve_tags:
             self._preserve_current_tags()
         else:
@@ -615,7 +626,8 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
             self._lines,
             self._tag_to_tei_path_mapping,
             container_node_path=self._container_node_path,
-            namespaces=self._namespaces
+            namespaces=self._namespaces,
+            has_trailing_line_break=self._has_trailing_line_break
         )
 
     def get_pages(self):
-- 
2.43.0


From f4c4d71d2d04fc44794fe10007866ed017cc85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:03 +0000
Subject: [PATCH 41/43] fix: do not continue a group of sub tags in the next
 element

---
 .../annotation/merge_group_tags_annotator.py              | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
index b88487a..a0d640b 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
@@ -7,6 +7,8 @@ from sciencebeam_trainer_grobid_tools.core.annotation.annotator import (
 
 from sciencebeam_trainer_grobid_tools.core.structured_document import (
     add_tag_prefix,
+    split_tag_prefix,
+    B_TAG_PREFIX,
     I_TAG_PREFIX
 )
 
@@ -49,8 +51,12 @@ class MergeGroupTagsPostProcessingAnnotator(AbstractAnnotator):
         for token in all_tokens_iterable:
             if tag_level:
                 # if we looking at sub tags, then only consider tokens with a tag
-                if not structured_document.get_tag_or_preserved_tag(token):
+                parent_tag = structured_document.get_tag_or_preserved_tag(token)
+                if not parent_tag:
                     continue
+                if split_tag_prefix(parent_tag)[0] == B_TAG_PREFIX:
+                    # sub tags do not continue in the next element
+                    current_group_tag = None
             tag = structured_document.get_tag_or_preserved_tag_value(token, level=tag_level)
             if tag:
                 current_group_tag = self.config.get_group_tag_for_tag_fn(tag)
-- 
2.43.0


From ca497d57f09ed65f99e879a6d84bbffbcad3e744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 42/43] fix: keep existing elements with a slash in their
 attribute

---
 .../structured_document/grobid_training_tei.py              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 482383d..f6d1f5c 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -406,7 +406,11 @@ def _get_element_at_path(current_element, current_path, required_path, token):
 
 
 def _split_path(path_str: str) -> List[str]:
-    return regex.split(r'(?<!\{[^}]*)/', path_str)
+    # not splitting within namespaces and attribute values
+    return regex.split(
+        r'(?:\{[^}]*\}|\[@?[^=]+=".*?"\](?=/|$))(*SKIP)(*FAIL)|/',
+        path_str
+    )
 
 
 def _get_tag_required_path(
-- 
2.43.0


From 403a13be7776700d40f2851fed3e1ebeeb754c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 43/43] fix: keep existing elements with an empty attribute

---
 .../structured_document/grobid_training_tei.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index f6d1f5c..611fadb 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -247,7 +247,7 @@ def _to_text_token(text: str, *args, **kwargs) -> TeiText:
 
 
 def _parse_tag_expression(tag_expression):
-    match = re.match(r'^([^\[]+)(\[@?([^=]+)="(.+)"\])?$', tag_expression)
+    match = re.match(r'^([^\[]+)(\[@?([^=]+)="(.*)"\])?$', tag_expression)
     if not match:
         raise ValueError('invalid tag expression: %s' % tag_expression)
     get_logger().debug('match: %s', match.groups())
-- 
2.43.0

