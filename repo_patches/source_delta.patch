From aa943a5ffdcb7991e0a91bc3835567e4bcef9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:05 +0000
Subject: [PATCH 01/64] fix: do not record a knowledge base as cached when
 loading it fails

---
 refextract/references/kbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index b909067..6ea29ea 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -64,9 +64,10 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
         kbs.update({kb_type: kb for (kb_type, kb) in custom_kbs.items() if kb})
 
     for kb_type, kb in kbs.items():
-        if kb != cache_inputs.get(kb_type):
-            cache_inputs[kb_type] = kb
+        if kb_type not in cache or kb != cache_inputs.get(kb_type):
+            # Load first: if this fails, the cache must stay consistent
             cache[kb_type] = load_kb_by_type(kb_type, kb)
+            cache_inputs[kb_type] = kb
     return cache
 
 
-- 
2.43.0


From 9de8e1b528ae323a355b2e6f0b480eefbecb23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:05 +0000
Subject: [PATCH 02/64] fix: notice a custom knowledge base that was modified
 in place

---
 refextract/references/kbs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 6ea29ea..1b6740e 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -22,6 +22,7 @@
 # or submit itself to any jurisdiction.
 
 import contextlib
+import copy
 import csv
 import re
 
@@ -67,7 +68,10 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
         if kb_type not in cache or kb != cache_inputs.get(kb_type):
             # Load first: if this fails, the cache must stay consistent
             cache[kb_type] = load_kb_by_type(kb_type, kb)
-            cache_inputs[kb_type] = kb
+            # Keep a snapshot, as the caller can modify its kb in place
+            cache_inputs[kb_type] = (
+                copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
+            )
     return cache
 
 
-- 
2.43.0


From 2544544eb3d70d2cc74e6896b6e615a5c5a3e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:05 +0000
Subject: [PATCH 03/64] fix: make the knowledge base cache safe for concurrent
 callers

---
 refextract/references/kbs.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 1b6740e..59c3e0f 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -25,6 +25,7 @@ import contextlib
 import copy
 import csv
 import re
+import threading
 
 from refextract.documents.text import re_group_captured_multiple_space
 from refextract.references.config import CFG_REFEXTRACT_KBS
@@ -37,6 +38,9 @@ from refextract.references.regexs import (
 )
 
 
+KBS_CACHE_LOCK = threading.Lock()
+
+
 @contextlib.contextmanager
 def file_resolving(fpath, reader=None, **kwargs):
     if isinstance(fpath, str):
@@ -64,15 +68,17 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
     if custom_kbs:
         kbs.update({kb_type: kb for (kb_type, kb) in custom_kbs.items() if kb})
 
-    for kb_type, kb in kbs.items():
-        if kb_type not in cache or kb != cache_inputs.get(kb_type):
-            # Load first: if this fails, the cache must stay consistent
-            cache[kb_type] = load_kb_by_type(kb_type, kb)
-            # Keep a snapshot, as the caller can modify its kb in place
-            cache_inputs[kb_type] = (
-                copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
-            )
-    return cache
+    with KBS_CACHE_LOCK:
+        for kb_type, kb in kbs.items():
+            if kb_type not in cache or kb != cache_inputs.get(kb_type):
+                # Load first: if this fails, the cache must stay consistent
+                cache[kb_type] = load_kb_by_type(kb_type, kb)
+                # Keep a snapshot, as the caller can modify its kb in place
+                cache_inputs[kb_type] = (
+                    copy.deepcopy(kb) if isinstance(kb, (dict, list)) else kb
+                )
+        # Not the cache itself, which changes when other kbs are asked for
+        return cache.copy()
 
 
 def load_kb_by_type(kb_type, kb):
-- 
2.43.0


From 709135348f90d7996be1f497195c03356c2c4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:05 +0000
Subject: [PATCH 04/64] fix: do not leak journals_re entries into the cached
 journals kb

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index af892b7..ddd6eaf 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -120,7 +120,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
-    standardised_titles = kbs["journals"][1]
+    standardised_titles = dict(kbs["journals"][1])
     standardised_titles.update(kbs["journals_re"])
     journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
 
-- 
2.43.0


From 1e5d450b37c5ab4b03bb6a7bb90f5d33169b0685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:18 +0000
Subject: [PATCH 05/64] fix: accumulate extraction statistics over all
 reference lines

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index ddd6eaf..3c27501 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1065,7 +1065,7 @@ def sum_2_dictionaries(dicta, dictb):
     """
     dict_out = dicta.copy()
     for key in dictb:
-        if "key" in dict_out:
+        if key in dict_out:
             # Add the sum for key in dictb to that of dict_out:
             dict_out[key] += dictb[key]
         else:
-- 
2.43.0


From cecfd6d162e71c2eb3b67e5ba197d2a24fa40741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:35 +0000
Subject: [PATCH 06/64] fix: report an empty file as unknown document type
 instead of failing to map it

---
 refextract/references/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 96aab19..4151013 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -25,6 +25,7 @@
 
 import logging
 import mmap
+import os
 import re
 from datetime import datetime
 
@@ -1449,6 +1450,9 @@ def clean_pdf_file(filename):
     """
     strip leading and/or trailing junk from a PDF file
     """
+    if os.path.getsize(filename) == 0:
+        # an empty file can't be mapped, and is not a PDF
+        return
     with (
         open(filename, "r+b") as file,
         mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
-- 
2.43.0


From 951ec2a27633a1c30245327498eb095bc3967e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:35 +0000
Subject: [PATCH 07/64] fix: keep the whole PDF when it has no end marker after
 its header

---
 refextract/references/engine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 4151013..c0907b2 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1462,8 +1462,11 @@ def clean_pdf_file(filename):
             # no PDF marker found
             LOGGER.debug("not a PDF file")
             return
-        end = mmfile.rfind(b"%%EOF")
+        end = mmfile.rfind(b"%%EOF", start)
         offset = len(b"%%EOF")
+        if end == -1:
+            # no end marker after the header: no trailing junk to strip
+            end = mmfile.size() - offset
         if start > 0:
             LOGGER.debug("moving and truncating")
             mmfile.move(0, start, end + offset - start)
-- 
2.43.0


From 1c1452b603e90dfae5b833116a1aed8202309917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 08/64] fix: do not fail on references containing internal URL
 or DOI tags

---
 refextract/references/engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index c0907b2..cd35b18 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1141,6 +1141,14 @@ def parse_tagged_reference_line(line_marker, line, identified_dois, identified_u
                 count_reportnum += 1
                 cur_misc_txt = ""
 
+        elif tag_type in ("URL", "DOI") and not (
+            identified_urls if tag_type == "URL" else identified_dois
+        ):
+            # No URL or DOI was identified here: the tag comes from the
+            # reference itself, get rid of it
+            processed_line = processed_line[tag_match_end:]
+            identified_citation_element = None
+
         elif tag_type == "URL":
             # This tag is an identified URL:
 
-- 
2.43.0


From 28b30499f45e2c742e3a055f07bcf06e78ad33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 09/64] fix: keep the elements recognised inside of a quoted
 title

---
 refextract/references/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index cd35b18..fb888c1 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1373,6 +1373,11 @@ def map_tag_to_subfield(tag_type, line, cur_misc_txt, dest):
         # recognised reportnumber as it is unreliable:
         identified_citation_element = None
         line = line[len("<cds.%s>" % tag_type) :]
+    elif "<cds." in line[:idx_closing_tag]:
+        # other elements were recognised inside of this one, strip the tag
+        # and keep its content so that they are not lost
+        identified_citation_element = None
+        line = line[:idx_closing_tag] + line[idx_closing_tag + len(closing_tag) :]
     else:
         tag_content = line[:idx_closing_tag]
         identified_citation_element = {
-- 
2.43.0


From 0921274e59acef115672e3cac6f548a1a21fbaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 10/64] fix: do not fail on superscript digits in the page of a
 special journal

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index fb888c1..baa26d1 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -162,7 +162,7 @@ def handle_special_journals(citation_elements, kbs):
                         el["page"],
                     )
                 el["volume"] = el["year"][-2:] + "%02d" % int(el["volume"])
-            if el["page"].isdigit():
+            if el["page"].isdecimal():
                 # JHEP and JCAP have always pages 3 digits long
                 el["page"] = "%03d" % int(el["page"])
 
-- 
2.43.0


From 58caeb8b963b4c9ad62ab502b9ac21e2914488c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 11/64] fix: keep the text preceding a repeated collaboration

---
 refextract/references/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index baa26d1..3dfb87c 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -543,7 +543,8 @@ def remove_duplicated_collaborations(splitted_citations):
         for el in citation[:]:
             if el["type"] == "COLLABORATION":
                 if el["collaboration"] in collabs:
-                    citation.remove(el)
+                    # keep the text before the duplicate
+                    el["type"] = "MISC"
                 else:
                     collabs.append(el["collaboration"])
 
-- 
2.43.0


From d31cb9dd19dab7914c82a7ac66cf8081fd1a789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 12/64] fix: add the URLs of a PDF reference in a reproducible
 order

---
 refextract/references/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/record.py b/refextract/references/record.py
index e00522e..6be87d1 100644
--- a/refextract/references/record.py
+++ b/refextract/references/record.py
@@ -160,7 +160,7 @@ def build_reference_fields(citation_elements, line_marker, raw_ref, reference_fo
 
 
 def update_reference_with_urls(reference, url_set):
-    for url in url_set:
+    for url in sorted(url_set):
         add_subfield(reference, "url", url)
 
 
-- 
2.43.0


From e29711d6ea05b51903aae18b2e2667e928f9ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 13/64] fix: support downloading from URLs with a very long
 file name

---
 refextract/references/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 26af485..e06b799 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -81,7 +81,8 @@ def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
     """
     # Get temporary filepath to download to
     filename, filepath = mkstemp(
-        suffix="_{0}".format(os.path.basename(url)),
+        # file names are limited to 255 bytes
+        suffix="_{0}".format(os.path.basename(url)[-50:]),
     )
     os.close(filename)
 
-- 
2.43.0


From 7e86d12d3c051fdb802fa73462e4aa470e0357e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 14/64] fix: locate journals and reports after characters
 without a single upper-case one

---
 refextract/references/tag.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 3c27501..0227e19 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -128,7 +128,11 @@ def tag_reference_line(line, kbs, record_titles_count):
     working_line2 = strip_tags(working_line1)
 
     # Transform the line to upper-case, now making a new working line:
-    working_line2 = working_line2.upper()
+    # (characters must stay at the same index, so leave alone the ones that
+    # become longer, like sharp s)
+    working_line2 = "".join(
+        char.upper() if len(char.upper()) == 1 else char for char in working_line2
+    )
 
     # Strip punctuation from the line:
     working_line2 = re_punctuation.sub(" ", working_line2)
-- 
2.43.0


From f600de453981082f78fe698b265c2c36f1e62c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 15/64] fix: use the transliterated line when authors were
 matched in it

---
 refextract/references/tag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 0227e19..2d33f1e 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -910,6 +910,7 @@ def identify_and_tag_authors(line, authors_kb):
 
     if len(matched_authors_unidecode) > len(matched_authors):
         output_line = unidecode(output_line)
+        line = unidecoded_line
         matched_authors = matched_authors_unidecode
 
     # If there is at least one matched author group
-- 
2.43.0


From 1a7fb7d067082b82efcc457069a7e80b26ba4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:09 +0000
Subject: [PATCH 16/64] fix: do not take the semicolon separating references as
 the end of a DOI

---
 refextract/references/regexs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c8c4d31..cdc3685 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -828,7 +828,8 @@ re_doi = re.compile(
     (\.\w+)*                           # subdivisions separated by . (optional)
     (/|%2f)                            # / (possibly urlencoded)
     [\w\-_:;\(\)/\.<>]+                # any character
-    [\w\-_:;\(\)/<>])                  # any character excluding a full stop
+    [\w\-_:\(\)/<>])                   # any character excluding a full stop
+                                       # or a semicolon (separates references)
     """,
     re.VERBOSE + re.IGNORECASE,
 )
-- 
2.43.0


From 882650a2446448a05c7d5a9af3ecddca720beffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:01 +0000
Subject: [PATCH 17/64] fix: do not return an empty reference for the
 indentation before a marker

---
 refextract/references/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 80b3690..4cf95ec 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -276,7 +276,8 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
                     working_ref.append(line[:start])
 
                 # Append current working line to the refs list
-                if working_ref:
+                # (unless it is only the indentation of the marker)
+                if any(ref_line.strip() for ref_line in working_ref):
                     rebuilt_references.append(prepare_ref(working_ref))
 
                 current_ref = marknum
@@ -295,7 +296,7 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
             # Continuation of line
             working_ref.append(line)
 
-    if working_ref:
+    if any(ref_line.strip() for ref_line in working_ref):
         # Append last line
         rebuilt_references.append(prepare_ref(working_ref))
 
-- 
2.43.0


From dc9b744cfb9118e108c4a7b41ac94077221701bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:56 +0000
Subject: [PATCH 18/64] fix: keep the character following a numeration without
 year

---
 refextract/references/tag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 2d33f1e..173f09d 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -669,6 +669,9 @@ def add_tagged_journal(
             # Now look for more funky numeration
             # With possibly some elements before the journal title
             numerotation_info = find_numeration_more(numeration_line)
+            if numerotation_info:
+                # don't count the space added after the title
+                numerotation_info["len"] -= 1
 
         if not numerotation_info:
             startpos = old_startpos
-- 
2.43.0


From 189306bc6b73a0de880e0a787b6a57fa046fc161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:54 +0000
Subject: [PATCH 19/64] fix: do not cut the markup of an element directly
 followed by a report number

---
 refextract/references/tag.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 173f09d..791765c 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -507,8 +507,11 @@ def add_tagged_report_number(
     # Fill rebuilt_line with the contents of the reading_line up to the point
     # of the institutional REPORT-NUMBER. However, stop 1 character before the
     # replacement index of this REPORT-NUMBER to allow for removal of braces,
-    # if necessary:
-    if (true_replacement_index - startpos - 1) >= 0:
+    # if necessary (but not of the end of a previous tag):
+    if (
+        true_replacement_index - startpos - 1 >= 0
+        and reading_line[true_replacement_index - 1] != ">"
+    ):
         rebuilt_line += reading_line[startpos : true_replacement_index - 1]
     else:
         rebuilt_line += reading_line[startpos:true_replacement_index]
-- 
2.43.0


From 9d1424a5085b91370f1eae0d1b219e52b59e1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 20/64] fix: do not tag a collaboration inside of a tagged
 author group

---
 refextract/references/tag.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 791765c..aa37972 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -884,6 +884,11 @@ def identify_and_tag_collaborations(line, collaborations_kb):
         matches = re_collab.finditer(strip_tags(line))
 
         for match in reversed(list(matches)):
+            if line.rfind("<cds.AUTH", 0, match.start()) > line.rfind(
+                "</cds.AUTH", 0, match.start()
+            ):
+                # already part of an author group, don't tag it twice
+                continue
             line = (
                 line[: match.start()]
                 + CFG_REFEXTRACT_MARKER_OPENING_COLLABORATION
-- 
2.43.0


From 9ae715a0ab2131b3b03c360c164671b7eb57e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 21/64] fix: keep the text and position of a quoted title found
 to be a known book

---
 refextract/references/engine.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 3dfb87c..c24a5b9 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -233,13 +233,12 @@ def look_for_books(citation_elements, kbs):
             line = kbs["books"][normalized_title]
             el = {
                 "type": "BOOK",
-                "misc_txt": "",
+                "misc_txt": title["misc_txt"],
                 "authors": line[0],
                 "title": line[1],
                 "year": line[2].strip(";"),
             }
-            citation_elements.append(el)
-            citation_elements.remove(title)
+            citation_elements[citation_elements.index(title)] = el
 
     return citation_elements
 
-- 
2.43.0


From 57b4fb8360f24eaca2a5f2757cb83667a30fd059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:35 +0000
Subject: [PATCH 22/64] fix: locate journals matched by regular expression
 after removed spaces

---
 refextract/references/tag.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index aa37972..2d5c2c3 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -143,6 +143,13 @@ def tag_reference_line(line, kbs, record_titles_count):
         working_line2
     )
 
+    # The journals matched by regular expression are located in the line
+    # before multiple spaces were removed
+    journals_matches = {
+        start - sum(removed_spaces[pos] for pos in removed_spaces if pos < start): title
+        for start, title in journals_matches.items()
+    }
+
     # Identify and record coordinates of institute preprint report numbers:
     found_pprint_repnum_matchlens, found_pprint_repnum_replstr, working_line2 = (
         identify_report_numbers(working_line2, kbs["report-numbers"])
-- 
2.43.0


From 3c1c38ab5e9aff090e9ac2810d0c8c101ce597af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:30 +0000
Subject: [PATCH 23/64] fix: support regular expressions in the journals_re
 knowledge base

---
 refextract/references/tag.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 2d5c2c3..153b60d 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -121,8 +121,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # conflict with other elements
     # e.g. DAN is also a common first name
     standardised_titles = dict(kbs["journals"][1])
-    standardised_titles.update(kbs["journals_re"])
-    journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
+    journals_re_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
 
     # Remove identified tags
     working_line2 = strip_tags(working_line1)
@@ -145,10 +144,14 @@ def tag_reference_line(line, kbs, record_titles_count):
 
     # The journals matched by regular expression are located in the line
     # before multiple spaces were removed
-    journals_matches = {
-        start - sum(removed_spaces[pos] for pos in removed_spaces if pos < start): title
-        for start, title in journals_matches.items()
-    }
+    journals_matches = {}
+    for start, end, title in journals_re_matches:
+        start, end = (
+            index - sum(removed_spaces[pos] for pos in removed_spaces if pos < index)
+            for index in (start, end)
+        )
+        journals_matches[start] = working_line2[start:end]
+        standardised_titles[working_line2[start:end]] = title
 
     # Identify and record coordinates of institute preprint report numbers:
     found_pprint_repnum_matchlens, found_pprint_repnum_replstr, working_line2 = (
@@ -451,11 +454,11 @@ def tag_atlas_conf(line):
 
 
 def identifiy_journals_re(line, kb_journals):
-    matches = {}
-    for pattern, _dummy_journal in kb_journals:
+    matches = []
+    for pattern, journal in kb_journals:
         match = re.search(pattern, line)
         if match:
-            matches[match.start()] = match.group(0)
+            matches.append((match.start(), match.end(), journal))
     return matches
 
 
-- 
2.43.0


From f154d166c5789300ffa840edb3fcca46ce4dfb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:27 +0000
Subject: [PATCH 24/64] fix: keep handles in their reference and without the
 punctuation following them

---
 refextract/references/engine.py | 12 +++++++-----
 refextract/references/regexs.py |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index c24a5b9..1c921fb 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -573,15 +573,17 @@ def look_for_hdl(citation_elements):
     @param citation_elements: (list) elements to process
     """
     for el in list(citation_elements):
-        matched_hdl = re_hdl.finditer(el["misc_txt"])
-        for match in reversed(list(matched_hdl)):
+        last_end = 0
+        for match in re_hdl.finditer(el["misc_txt"]):
+            # the misc text of an element comes before it
             hdl_el = {
                 "type": "HDL",
                 "hdl_id": match.group("hdl_id"),
-                "misc_txt": el["misc_txt"][match.end() :],
+                "misc_txt": el["misc_txt"][last_end : match.start()],
             }
-            el["misc_txt"] = el["misc_txt"][0 : match.start()]
-            citation_elements.insert(citation_elements.index(el) + 1, hdl_el)
+            last_end = match.end()
+            citation_elements.insert(citation_elements.index(el), hdl_el)
+        el["misc_txt"] = el["misc_txt"][last_end:]
 
 
 def look_for_hdl_urls(citation_elements):
diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index cdc3685..279b38c 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -838,7 +838,7 @@ re_doi = re.compile(
 re_hdl = re.compile(
     r"""([hH][dD][lL]:
                           |https?://hdl\.handle\.net/)
-                         (?P<hdl_id>\S+/\S+)""",
+                         (?P<hdl_id>\S+/\S*[^\s.,;])""",
     re.UNICODE | re.VERBOSE,
 )
 
-- 
2.43.0


From c94e6397a00633853220e6aaca0841866e153647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:49 +0000
Subject: [PATCH 25/64] fix: replace the whole publisher when it is written
 with punctuation inside

---
 refextract/references/tag.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 153b60d..9da788f 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -290,6 +290,7 @@ def process_reference_line(
                 pprint_repnum_len,
                 journals_matches,
                 replacement_index,
+                publishers_matches,
             )
 
             if replacement_types[replacement_index] == "journal":
@@ -786,6 +787,7 @@ def account_for_stripped_whitespace(
     len_reportnums,
     journals_matches,
     replacement_index,
+    publishers_matches=(),
 ):
     """To build a processed (MARC XML) reference line in which the
     recognised citations such as standardised periodical TITLEs and
@@ -861,6 +863,16 @@ def account_for_stripped_whitespace(
             # before its recognition:
             spare_replacement_index += removed_spaces[space]
             extras += removed_spaces[space]
+        elif (
+            space >= spare_replacement_index
+            and replacement_types[replacement_index] == "publisher"
+            and space
+            < (spare_replacement_index + len(publishers_matches[replacement_index]))
+        ):
+            # A publisher is being replaced. Account for multi-spaces that may
+            # have been stripped from it before its recognition:
+            spare_replacement_index += removed_spaces[space]
+            extras += removed_spaces[space]
 
     # return the new values for replacement indices with stripped
     # whitespace accounted for:
-- 
2.43.0


From 90d528ebc50d0703f4f4989fc0f7b9fdfe2c2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:25 +0000
Subject: [PATCH 26/64] fix: recognise every occurrence of a journal matched by
 regular expression

---
 refextract/references/tag.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 9da788f..b2141f2 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -457,8 +457,7 @@ def tag_atlas_conf(line):
 def identifiy_journals_re(line, kb_journals):
     matches = []
     for pattern, journal in kb_journals:
-        match = re.search(pattern, line)
-        if match:
+        for match in re.finditer(pattern, line):
             matches.append((match.start(), match.end(), journal))
     return matches
 
-- 
2.43.0


From 9b0c9903f3f097c8767c7cc06020431b7de8cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:00 +0000
Subject: [PATCH 27/64] fix: do not take the first line of a table of numbers
 into the reference section

---
 refextract/references/find.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 29d2b3a..003cb38 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -476,6 +476,7 @@ def find_end_of_reference_section(
                     y = y + 1
                 if num_digit_lines == digit_lines:
                     section_ended = True
+        if not section_ended:
             x += 1
     return x - 1
 
-- 
2.43.0


From b316c3066a66d45f7f9ace720d62aff56c9a1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:44 +0000
Subject: [PATCH 28/64] fix: end the reference section at the keywords that
 follow it

---
 refextract/references/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 003cb38..dc01a4e 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -413,7 +413,7 @@ def find_end_of_reference_section(
             # didn't match a section title - try looking for keywords that
             # suggest the end of a reference section:
             end_match = regex_match_list(docbody[x].strip(), kw_patterns)
-        else:
+        if end_match:
             # Is it really the end of the reference section? Check within the next
             # 5 lines for other reference numeration markers:
             y = x + 1
-- 
2.43.0


From fbc022e20c342fffeb99569364244c39ba8cb354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:41 +0000
Subject: [PATCH 29/64] fix: recognise the references following one on the line
 of the section title

---
 refextract/references/find.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index dc01a4e..e549e1e 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -77,8 +77,11 @@ def find_reference_section(docbody):
             if title_match:
                 title = title_match.group("title")
                 index = len(docbody) - 1 - reversed_index
+                # leave out the number of the section
                 temp_ref_details, found_title = find_numeration(
-                    docbody[index : index + 6], title
+                    [line[title_match.start("title") :]]
+                    + docbody[index + 1 : index + 6],
+                    title,
                 )
                 if temp_ref_details:
                     if (
@@ -168,7 +171,11 @@ def find_numeration_in_title(docbody, title):
     mk_with_title_match = regex_match_list(first_line, mk_with_title_ptns)
     if mk_with_title_match:
         mk = mk_with_title_match.group("mark")
-        mk_ptn = mk_with_title_match.re.pattern
+        # only the first reference follows the title: use the same pattern
+        # without the title to recognise the other ones
+        mk_ptn = get_reference_line_numeration_marker_patterns()[
+            mk_with_title_ptns.index(mk_with_title_match.re)
+        ].pattern
         m_num = re_num.search(mk)
         if m_num and m_num.group(0) == "1":
             # Mark found
-- 
2.43.0


From a93c106bb7c939f25a97ab467cf36f6289ca86b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 30/64] fix: read plain-text documents as UTF-8 whatever the
 locale

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 1c921fb..5b5b75c 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1509,7 +1509,7 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     mime_type = magic.from_file(fpath, mime=True)
 
     if mime_type == "text/plain":
-        with open(fpath, "r") as f:
+        with open(fpath, encoding="utf-8") as f:
             textbody = f.readlines()
     elif mime_type == "application/pdf":
         textbody = convert_PDF_to_plaintext(fpath, keep_layout)
-- 
2.43.0


From 26d6ff44aa416bdb4bcbe3423a2589801c8d0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 31/64] fix: drop versions of several digits of arXiv numbers

---
 refextract/references/regexs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 279b38c..58c7a97 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -92,7 +92,7 @@ re_pos = compute_pos_patterns(re_pos_patterns)
 re_arxiv = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>\d{2})-?(?P<month>\d{2})
-    [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d))?
+    [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d{1,3}))?
     \s*(?P<suffix>\[[A-Z.-]+\])? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -100,7 +100,7 @@ re_arxiv = re.compile(
 re_arxiv_5digits = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>(1[3-9]|[2-8][0-9]))-?(?P<month>(0[1-9]|1[0-2]))
-    [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d))?
+    [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d{1,3}))?
     \s*(?P<suffix>\[[A-Z.-]+\])? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -282,7 +282,7 @@ re_new_arxiv = re.compile(
     (?<!ARXIV:)(?<!\d)
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d))?(?!\d)
+    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d{1,3}))?(?!\d)
     \s*(?P<suffix>\[[A-Z.-]+\])? """
     % {"arxiv_years": arxiv_years},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
@@ -293,7 +293,7 @@ re_new_arxiv_5digits = re.compile(
     (?<!ARXIV:)(?<!\d)
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d))?(?!\d)
+    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d{1,3}))?(?!\d)
     \s*(?P<suffix>\[[A-Z.-]+\])? """
     % {"arxiv_years": arxiv_years_5digits},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
-- 
2.43.0


From b45140b638fd672c1686b2c6beab421345a05449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 32/64] fix: read ep-th as hep-th

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 58c7a97..2b9a0ed 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -199,7 +199,7 @@ old_arxiv = {
     r"nlin-si": "nlin.si",
     r"quantum-ph": "quant-ph",
     r"ep-ph": "hep-ph",
-    r"ep-th": "hep-ph",
+    r"ep-th": "hep-th",
     r"ep-ex": "hep-ex",
     r"hept-h": "hep-th",
     r"hepp-h": "hep-ph",
-- 
2.43.0


From 8978ad1de6c83651c60a08507835ec7b4a0c17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:14 +0000
Subject: [PATCH 33/64] fix: do not leave the arXiv: before an old identifier
 in misc

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 2b9a0ed..da21034 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -250,7 +250,7 @@ def compute_arxiv_re(report_pattern, report_number):
         report_number = r"\g<name>"
     report_re = re.compile(
         r"(?<!<cds\.REPORTNUMBER>)(?<!\w)"
-        + "(?P<name>"
+        + r"(?:arXiv:\s*)?(?P<name>"
         + report_pattern
         + ")"
         + old_arxiv_numbers,
-- 
2.43.0


From 93a896582591f8715253ae0cdc5211a805ce8c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:31 +0000
Subject: [PATCH 34/64] fix: recognise old physics identifiers with a subject
 class such as physics.acc-ph

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index da21034..8311679 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -249,7 +249,7 @@ def compute_arxiv_re(report_pattern, report_number):
     if report_number is None:
         report_number = r"\g<name>"
     report_re = re.compile(
-        r"(?<!<cds\.REPORTNUMBER>)(?<!\w)"
+        r"(?<!<cds\.REPORTNUMBER>)(?<!\w)(?<!physics\.)"
         + r"(?:arXiv:\s*)?(?P<name>"
         + report_pattern
         + ")"
-- 
2.43.0


From 5c538ccbd1df1d7d9aa3ed0867cac29bf6413b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 35/64] fix: keep the text before a JHEP reference without a
 page

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 5b5b75c..6708865 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -156,7 +156,7 @@ def handle_special_journals(citation_elements, kbs):
                 # actually a year, so we skip this reference
                 if el["year"] == "" and re.match(r"(19|20)\d{2}$", el["page"]):
                     el["type"] = "MISC"
-                    el["misc_txt"] = "%s,%s,%s" % (
+                    el["misc_txt"] += "%s,%s,%s" % (
                         el["title"],
                         el["volume"],
                         el["page"],
-- 
2.43.0


From f70c8d6fb4c796df2c7171dcc1d266b4c1e97343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:33 +0000
Subject: [PATCH 36/64] fix: ignore the padding of the categories of report
 numbers when looking for the longest one

---
 refextract/references/kbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 59c3e0f..386b6bd 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -314,7 +314,7 @@ def build_reportnum_kb(fpath):
 
     # pattern to recognise an institute preprint categ line in the KB
     re_preprint_classification = re.compile(
-        r"^\s*(\w.*)\s*---\s*(\w.*)\s*$", re.UNICODE
+        r"^\s*(\w.*?)\s*---\s*(\w.*?)\s*$", re.UNICODE
     )
 
     # pattern to recognise a preprint numeration-style line in KB
-- 
2.43.0


From 8d6f9b8f310ed1c1011416e9f468be58d057c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:46 +0000
Subject: [PATCH 37/64] fix: do not count the optional marks of a report number
 pattern in its length

SLAC-PUB-98-456 gave the report number SLAC-PUB-98
---
 refextract/references/kbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 386b6bd..361d033 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -119,7 +119,7 @@ def order_reportnum_patterns_bylen(numeration_patterns):
     """
     pattern_list = []
     for pattern in numeration_patterns:
-        base_pattern = re_regexp_character_class.sub("1", pattern)
+        base_pattern = re_regexp_character_class.sub("1", pattern).replace("?", "")
         pattern_list.append((len(base_pattern), pattern))
     pattern_list.sort(key=lambda x: x[0], reverse=True)
     return pattern_list
-- 
2.43.0


From b68117d75290c96ef8a444f68d845dc3dac20a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:06 +0000
Subject: [PATCH 38/64] fix: recognise the report numbers of CERN brochures

---
 refextract/references/kbs/report-numbers.kb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/kbs/report-numbers.kb b/refextract/references/kbs/report-numbers.kb
index caf02d9..240a8b0 100644
--- a/refextract/references/kbs/report-numbers.kb
+++ b/refextract/references/kbs/report-numbers.kb
@@ -317,7 +317,7 @@ CMS UG TP       ---CMS-UG-TP
 CERN GE         ---CERN-GE
 
 *****CERN with language*****
-<syyyys9?9?9sEng>
+<syyyys9?9?9sENG>
 
 CERN BROCHURE   ---CERN-BROCHURE
 
-- 
2.43.0


From ee44ff47525053596f41980c56ce55403396891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:00 +0000
Subject: [PATCH 39/64] fix: write the identifiers of all archives of the
 knowledge base with a slash

---
 refextract/references/engine.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 6708865..74cc52f 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -190,7 +190,32 @@ def format_hep(citation_elements):
 
     e.g. replaces hep-th-9711200 with hep-th/9711200
     """
-    prefixes = ("astro-ph-", "hep-th-", "hep-ph-", "hep-ex-", "hep-lat-", "math-ph-")
+    prefixes = (
+        "astro-ph-",
+        "hep-th-",
+        "hep-ph-",
+        "hep-ex-",
+        "hep-lat-",
+        "math-ph-",
+        "acc-phys-",
+        "adap-org-",
+        "alg-geom-",
+        "ao-sci-",
+        "auto-fms-",
+        "bayes-an-",
+        "cd-hg-",
+        "cmp-lg-",
+        "comp-gas-",
+        "dg-ga-",
+        "funct-an-",
+        "gr-qc-",
+        "lc-om-",
+        "mtrl-th-",
+        "neuro-cel-",
+        "neuro-dev-",
+        "neuro-sci-",
+        "patt-sol-",
+    )
     for el in citation_elements:
         if el["type"] == "REPORTNUMBER":
             for p in prefixes:
-- 
2.43.0


From 4cd839dc68bee03eed87cc0eb68b6d36e3a8a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:50 +0000
Subject: [PATCH 40/64] fix: simplify the journal titles to look for like the
 lines they are looked for in

Titles with more than one dot, or with other punctuation, were never found.
---
 refextract/references/kbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 361d033..768b44e 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -531,9 +531,10 @@ def build_journals_kb(knowledgebase):
     # by the KB:
     repl_terms = {}
     for seek_phrase, repl in knowledgebase:
-        # We match on a simplified line, thus dots are replaced
+        # We match on a simplified line, thus punctuation is replaced
         # with spaces
-        seek_phrase = seek_phrase.replace(".", " ").upper()
+        seek_phrase = re_punctuation.sub(" ", seek_phrase.upper())
+        seek_phrase = re_group_captured_multiple_space.sub(" ", seek_phrase).strip()
 
         # good KB line
         # Add the 'replacement term' into the dictionary of
-- 
2.43.0


From 0170fd1681e509502d8616fa208f2a38a7a5683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:29 +0000
Subject: [PATCH 41/64] fix: keep the semicolon between two papers of which the
 second is a report number

The character before a report number was dropped as if it was a bracket,
also when it was the separator of two papers.
---
 refextract/references/tag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index b2141f2..8f45698 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -517,10 +517,10 @@ def add_tagged_report_number(
     # Fill rebuilt_line with the contents of the reading_line up to the point
     # of the institutional REPORT-NUMBER. However, stop 1 character before the
     # replacement index of this REPORT-NUMBER to allow for removal of braces,
-    # if necessary (but not of the end of a previous tag):
+    # if necessary (but not of the end of a previous tag or a separator):
     if (
         true_replacement_index - startpos - 1 >= 0
-        and reading_line[true_replacement_index - 1] != ">"
+        and reading_line[true_replacement_index - 1] not in (">", ";")
     ):
         rebuilt_line += reading_line[startpos : true_replacement_index - 1]
     else:
-- 
2.43.0


From e7d866e8a88cf6ad63c62a5e1288b38612b39eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:12 +0000
Subject: [PATCH 42/64] fix: keep the last page of a page range after an
 implied ibid

---
 refextract/references/engine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 74cc52f..73beaaf 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -512,14 +512,16 @@ def look_for_implied_ibids(splitted_citations):
                             volume = numeration["series"] + numeration["volume"]
                         else:
                             volume = numeration["volume"]
+                        page = numeration["page"] or numeration["jinst_page"]
+                        if numeration["page_end"]:
+                            page = "%s-%s" % (page, numeration["page_end"])
                         ibid_el = {
                             "type": "JOURNAL",
                             "misc_txt": "",
                             "title": current_journal["title"],
                             "volume": volume,
                             "year": numeration["year"],
-                            "page": numeration["page"] or numeration["jinst_page"],
-                            "page_end": numeration["page_end"],
+                            "page": page,
                             "is_ibid": True,
                             "extra_ibids": [],
                         }
-- 
2.43.0


From 3fa80553f1a5fcfa86af9572b1a9567f33e12891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:57 +0000
Subject: [PATCH 43/64] fix: do not find a second publisher within the name of
 another one

'Kluwer Academic' was split into two references, one to the publisher
'Kluwer Academic' and one to the publisher 'Academic'.
---
 refextract/references/tag.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 8f45698..78d594c 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1354,10 +1354,13 @@ def identify_publishers(line, kb_publishers):
     matches_repl = {}  # standardised report numbers matched
     # at given locations in line
 
-    for abbrev, info in kb_publishers.items():
-        for match in info["pattern"].finditer(line):
+    # The longest names first: they can contain the name of another publisher
+    for abbrev in sorted(kb_publishers, key=len, reverse=True):
+        for match in kb_publishers[abbrev]["pattern"].finditer(line):
             # record the matched non-standard version of the publisher:
             matches_repl[match.start(0)] = abbrev
+            # and don't match this part of the line again
+            line = line[: match.start()] + "_" * len(match.group(0)) + line[match.end() :]
 
     return matches_repl
 
-- 
2.43.0


From 35eab83d892d57dc53c9f22396e70e09fc37089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:57 +0000
Subject: [PATCH 44/64] fix: do not fail on the books of the knowledge base
 that have no year

---
 refextract/references/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 73beaaf..fe74665 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -261,8 +261,10 @@ def look_for_books(citation_elements, kbs):
                 "misc_txt": title["misc_txt"],
                 "authors": line[0],
                 "title": line[1],
-                "year": line[2].strip(";"),
             }
+            # Some books of the knowledge base have no year
+            if len(line) > 2:
+                el["year"] = line[2].strip(";")
             citation_elements[citation_elements.index(title)] = el
 
     return citation_elements
-- 
2.43.0


From aa66305f8d20f7bc8e2234db75579813b4e87b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:06 +0000
Subject: [PATCH 45/64] fix: recognise 'International Standard Book Number'

The blanks of the pattern were ignored (re.VERBOSE).
---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 8311679..e48ea08 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -305,7 +305,7 @@ re_quoted = re.compile(r'"(?P<title>[^"]+)"', re.UNICODE)
 # Pattern to recognise an ISBN for a book:
 re_isbn = re.compile(
     r"""
-    (?:ISBN[-– ]*(?:|10|13)|International Standard Book Number)
+    (?:ISBN[-– ]*(?:|10|13)|International\ Standard\ Book\ Number)
     [:\s]*
     (?P<code>[-\-–0-9Xx]{10,25})""",
     re.VERBOSE | re.UNICODE,
-- 
2.43.0


From 196fbaf8b8ee06cf20f6c6159609f9d8cc6a0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:41 +0000
Subject: [PATCH 46/64] fix: do not fail on an unquoted book without year in
 the knowledge base

---
 refextract/references/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index fe74665..7d69ce7 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -751,6 +751,9 @@ def search_for_book_in_misc(citation, kbs):
             )
             if startIndex != -1:
                 line = kbs["books"][title.upper()]
+                if len(line) < 3:
+                    # no year to compare with in the knowledge base
+                    continue
                 book_year = line[2].strip(";")
                 book_authors = line[0]
                 book_found = False
-- 
2.43.0


From 906b4a5ddc83db2c91fd0835fe9f3cef113e1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:41 +0000
Subject: [PATCH 47/64] fix: cut the title of a book at the right place after a
 sharp s

Upper case letters can be longer than the lower case ones.
---
 refextract/references/engine.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 7d69ce7..7da5f8b 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -811,9 +811,17 @@ def get_possible_author_names(citation):
     return []
 
 
+def upper_same_length(s):
+    """Upper case, leaving alone the characters that would become longer"""
+    upper = s.upper()
+    if len(upper) == len(s):
+        return upper
+    return "".join(char.upper() if len(char.upper()) == 1 else char for char in s)
+
+
 def find_substring_ignore_special_chars(s, substr):
-    s = s.upper()
-    substr = substr.upper()
+    s = upper_same_length(s)
+    substr = upper_same_length(substr)
     clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s)
     clean_substr, dummy_subs_in_substr = re.subn("[^A-Z0-9]", "", substr)
     startIndex = clean_s.find(clean_substr)
@@ -836,8 +844,8 @@ def find_substring_ignore_special_chars(s, substr):
 def cut_substring_with_special_chars(s, sub, startIndex):
     counter = 0
     subPosition = 0
-    s_Upper = s.upper()
-    sub = sub.upper()
+    s_Upper = upper_same_length(s)
+    sub = upper_same_length(sub)
     clean_sub = re.sub("[^A-Z0-9]", "", sub)
     for char in s_Upper[startIndex:]:
         if char == clean_sub[subPosition]:
-- 
2.43.0


From dea633c1f232c0cb5c263db722afcf087fccfa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:49 +0000
Subject: [PATCH 48/64] fix: find the longest book title, and only whole words,
 in a reference

'Abrikosov vortex and branes' (2003) gave the title 'D-branes' and left
'Abrikosov vortex an' as other text.
---
 refextract/references/engine.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 7da5f8b..5b7e977 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -745,7 +745,8 @@ def search_for_book_in_misc(citation, kbs):
     citation_year = year_from_citation(citation)
     for citation_element in citation:
         LOGGER.debug("Searching for book title in: %s", citation_element["misc_txt"])
-        for title in kbs["books"]:
+        # The longest titles first: they can contain the title of another book
+        for title in sorted(kbs["books"], key=len, reverse=True):
             startIndex = find_substring_ignore_special_chars(
                 citation_element["misc_txt"], title
             )
@@ -824,21 +825,13 @@ def find_substring_ignore_special_chars(s, substr):
     substr = upper_same_length(substr)
     clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s)
     clean_substr, dummy_subs_in_substr = re.subn("[^A-Z0-9]", "", substr)
-    startIndex = clean_s.find(clean_substr)
-    if startIndex != -1:
-        i = 0
-        real_index = 0
-        re_alphanum = re.compile("[A-Z0-9]")
-        for char in s:
-            if re_alphanum.match(char):
-                i += 1
-            if i > startIndex:
-                break
-            real_index += 1
-
-        return real_index
-    else:
+    if not clean_substr or clean_substr not in clean_s:
         return -1
+    # Find it as whole words only
+    match = re.search(
+        r"(?<![^\W_])%s(?![^\W_])" % "[^A-Z0-9]*".join(clean_substr), s, re.UNICODE
+    )
+    return match.start() if match else -1
 
 
 def cut_substring_with_special_chars(s, sub, startIndex):
-- 
2.43.0


From b766221d9b1551d9d607522d3d1cd1abdb40d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:09 +0000
Subject: [PATCH 49/64] fix: recognise '(ed.)' and '(eds.)' before the names of
 the editors

---
 refextract/authors/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/authors/regexs.py b/refextract/authors/regexs.py
index c1a92ca..11fc40f 100644
--- a/refextract/authors/regexs.py
+++ b/refextract/authors/regexs.py
@@ -284,7 +284,7 @@ def make_auth_regex_str(etal, initial_surname_author=None, surname_initial_autho
       ## 'eds?. by, ' | 'ed. by: ' | 'ed by '  | 'ed. by '| 'ed by: '
       |(?:(?:[Ee][Dd]s?|[Ee]dited|[Ee]ditions?)(?:(?:\.\s?)|(?:\.?\s))by(?:\s|([:,]\s)))
        ## '( eds?. )'  | '(ed.)'    | '(ed )'   | '( ed )' | '(ed)'
-      |(?:\(\s?([Ee][Dd]s?|[Ee]dited|[Ee]ditors?)(?:(?:\.\s?)|(?:\.?\s))?\)))
+      |(?:\(\s?([Ee][Dd]s?|[Ee]dited|[Ee]ditors?)(?:(?:\.\s?)|(?:\.?\s))?\)\s*))
      )?
 
    ## **** (1) , one or two surnames which MUST end with 'et al' (e.g. Amaldi et al.,)
-- 
2.43.0


From b91c20c8009d16f046279c572fe25ed4c3cd560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:09 +0000
Subject: [PATCH 50/64] fix: give the links of a PDF to the references they
 follow in reading order

Links of references continuing on the next page or in the next column
were lost or given to another reference.
---
 refextract/references/pdf.py | 96 +++++++++---------------------------
 1 file changed, 24 insertions(+), 72 deletions(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 010943b..df7864b 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -97,14 +97,14 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
                 ).group(1)
                 if nb < len(refs) - 1:
                     next_reference_data = refs[nb + 1]
-                    matched_urls_for_reference, urls = _match_urls_with_reference(
+                    matched_urls_for_reference = _match_urls_with_reference(
                         urls,
                         ref,
                         next_reference_data,
                         two_column_layout=two_column_layout,
                     )
                 else:
-                    matched_urls_for_reference, urls = _match_urls_with_reference(
+                    matched_urls_for_reference = _match_urls_with_reference(
                         urls, ref, two_column_layout=two_column_layout
                     )
                 if matched_urls_for_reference:
@@ -119,79 +119,31 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
 def _match_urls_with_reference(
     urls_to_match, reference, next_reference=None, two_column_layout=False
 ):
-    ref_page_number, ref_column, ref_y, _ = reference[1]
-    if next_reference:
-        next_ref_page_number, next_ref_col, next_ref_y, _ = next_reference[1]
+    """
+    Give the urls between a reference and the next one in reading order
+
+    After the last reference only the urls below it are taken
+    """
+
+    def reading_order(position):
+        page, column, ypos, _ = position
+        return (page, column, ypos) if two_column_layout else (page, ypos)
+
+    ref_page_number, _, ref_y, _ = reference[1]
     urls_for_reference = set()
-    for url_index, url in enumerate(urls_to_match):
-        url_page_number, url_col, url_y, _ = url[1]
-        is_url_under_texkey = ref_y <= url_y
-        is_url_in_same_col = ref_column == url_col
-        is_url_in_next_col = url_col > ref_column
-        is_reference_on_same_page_as_url = ref_page_number == url_page_number
-        is_reference_on_previous_page_than_url = ref_page_number + 1 == url_page_number
-        if not next_reference:
-            if (
-                (
-                    is_reference_on_same_page_as_url
-                    and (is_url_in_same_col or is_url_in_next_col)
-                )
-                or is_reference_on_previous_page_than_url
-            ) and is_url_under_texkey:
-                urls_for_reference.add(url[0])
-            continue
-        is_url_between_texkeys = (
-            is_reference_on_same_page_as_url or is_reference_on_previous_page_than_url
-        ) and (ref_y <= url_y <= next_ref_y)
-        is_next_reference_on_the_same_page = next_ref_page_number == url_page_number
-        is_last_reference_in_page = (
-            is_reference_on_same_page_as_url
-            and (next_ref_page_number > url_page_number)
-            and is_url_under_texkey
-        )
-        is_last_reference_in_page_two_col_layout = (
-            is_reference_on_same_page_as_url
-            and is_next_reference_on_the_same_page
-            and is_url_under_texkey
-            and (next_ref_col > url_col)
-            and next_ref_y < url_y
-            and ref_y <= url_y
-            and (is_url_in_same_col or is_url_in_next_col)
-        )
-        is_in_new_column = (
-            is_reference_on_same_page_as_url
-            and is_next_reference_on_the_same_page
-            and ref_y > url_y
-            and (next_ref_col > ref_column)
-            and (next_ref_y > url_y)
-        )
-        is_url_for_other_reference_in_new_column = (
-            is_reference_on_same_page_as_url
-            and (next_ref_page_number == url_page_number)
-            and (next_ref_col == ref_column < url_col)
-            and (next_ref_y > url_y)
-        )
-        is_url_unrelated_to_references = ref_page_number > url_page_number
-        is_url_for_next_reference = url_y >= next_ref_y
-        if is_url_between_texkeys:
-            if not two_column_layout or (two_column_layout and url_col == ref_column):
-                urls_for_reference.add(url[0])
-                continue
-        elif (
-            is_last_reference_in_page
-            or is_last_reference_in_page_two_col_layout
-            or is_in_new_column
-        ):
-            urls_for_reference.add(url[0])
+    for url, position in urls_to_match:
+        if reading_order(position) < reading_order(reference[1]):
             continue
-        elif is_url_unrelated_to_references:
+        if next_reference:
+            if reading_order(position) < reading_order(next_reference[1]):
+                urls_for_reference.add(url)
             continue
-        elif is_url_for_next_reference or is_url_for_other_reference_in_new_column:
-            urls_to_match = urls_to_match[url_index:]
-            break
-    if not next_reference:
-        urls_to_match = []
-    return urls_for_reference, urls_to_match
+        url_page_number, _, url_y, _ = position
+        if url_page_number == ref_page_number or (
+            url_page_number == ref_page_number + 1 and ref_y <= url_y
+        ):
+            urls_for_reference.add(url)
+    return urls_for_reference
 
 
 def _destinations_in_two_columns(pdf, destinations, cutoff=3):
-- 
2.43.0


From 82b7fee2001d85c4b732e3260e75becabec87b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:20 +0000
Subject: [PATCH 51/64] fix: do not take the end of a handle or report number
 for the year of a journal

---
 refextract/references/regexs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index e48ea08..869d5da 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -584,7 +584,8 @@ re_sep_or_after_parentesis = "(?:" + re_sep + "|" + re_look_behind_parentesis +
 # are used for this:
 
 re_correct_numeration_2nd_try_ptn1 = re.compile(
-    re_year
+    r"(?<![/-])"  # not the end of a handle or a report number
+    + re_year
     + re_sep  # Year
     + re_title_tag  # Recognised, tagged title
     + "(?P<aftertitle>"
@@ -597,7 +598,8 @@ re_correct_numeration_2nd_try_ptn1 = re.compile(
 )
 
 re_correct_numeration_2nd_try_ptn2 = re.compile(
-    re_year
+    r"(?<![/-])"  # not the end of a handle or a report number
+    + re_year
     + re_sep
     + re_title_tag
     + "(?P<aftertitle>"
-- 
2.43.0


From 33167859bc1387f8ded6de38577043de703fc183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:14 +0000
Subject: [PATCH 52/64] fix: keep the words around a year apart and long
 numbers whole

---
 refextract/references/regexs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 869d5da..790a6a9 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -1109,5 +1109,7 @@ def remove_year(s, year=None):
     year_pattern = re.escape(year) if year else "(?:19|20)\\d{2}"
     s = re.sub(r"\[\s*%s\s*\]" % year_pattern, "", s)
     s = re.sub(r"\(\s*%s\s*\)" % year_pattern, "", s)
-    s = re.sub(r"\s*%s\s*" % year_pattern, "", s)
+    # Keep the words around the year apart
+    s = re.sub(r"\s+(?<!\d)%s(?!\d)\s+" % year_pattern, " ", s)
+    s = re.sub(r"\s*(?<!\d)%s(?!\d)\s*" % year_pattern, "", s)
     return s
-- 
2.43.0


From 8d4a5897087c8340c6a3a490a4427b9ce1c6f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:00 +0000
Subject: [PATCH 53/64] fix: look up every quoted title of a line in the list
 of books

---
 refextract/references/engine.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 5b7e977..fd467da 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -246,13 +246,9 @@ def look_for_books(citation_elements, kbs):
     Create book tags by using the authors and the title to find books
     in our knowledge base
     """
-    title = None
-    for el in citation_elements:
-        if el["type"] == "QUOTED":
-            title = el
-            break
-
-    if title:
+    for index, title in enumerate(citation_elements):
+        if title["type"] != "QUOTED":
+            continue
         normalized_title = title["title"].upper()
         if normalized_title in kbs["books"]:
             line = kbs["books"][normalized_title]
@@ -265,7 +261,7 @@ def look_for_books(citation_elements, kbs):
             # Some books of the knowledge base have no year
             if len(line) > 2:
                 el["year"] = line[2].strip(";")
-            citation_elements[citation_elements.index(title)] = el
+            citation_elements[index] = el
 
     return citation_elements
 
-- 
2.43.0


From 25578e849aae4770ec294d5050933ba53d508137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:18 +0000
Subject: [PATCH 54/64] fix: end the reference section at a double-spaced block
 of numbers

---
 refextract/references/find.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index e549e1e..4c54b32 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -480,6 +480,7 @@ def find_end_of_reference_section(
                         # This is a blank line. Don't count it, to accommodate
                         # documents that are double-line spaced:
                         digit_lines += 1
+                        num_digit_lines += 1
                     y = y + 1
                 if num_digit_lines == digit_lines:
                     section_ended = True
-- 
2.43.0


From 5af83310b4628783ff5d6bc22e81e381d9addff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:55 +0000
Subject: [PATCH 55/64] fix: ignore blanks around the terms of a knowledge base
 line

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 790a6a9..1220b8c 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -313,7 +313,7 @@ re_isbn = re.compile(
 
 # Pattern to recognise a correct knowledge base line:
 re_kb_line = re.compile(
-    r"^\s*(?P<seek>[^\s].*)\s*---\s*(?P<repl>[^\s].*)\s*$", re.UNICODE
+    r"^\s*(?P<seek>\S(?:.*\S)?)\s*---\s*(?P<repl>\S(?:.*\S)?)\s*$", re.UNICODE
 )
 
 # Pattern to recognise references in PDF named destinations
-- 
2.43.0


From 46367be21a778088b631d99a6cf422aaa63206cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 56/64] fix: treat tabs and other blanks of a reference line as
 spaces

---
 refextract/references/text.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 4cf95ec..42c9da7 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -28,7 +28,6 @@ from inspire_utils.record import replace_undesirable_characters
 
 from refextract.documents.text import (
     join_lines,
-    re_multiple_space,
     remove_page_boundary_lines,
     repair_broken_urls,
 )
@@ -318,8 +317,8 @@ def wash_and_repair_reference_line(line):
     line = re.sub(r'"([^"]+),"', r'"\g<1>",', line)
     line = replace_undesirable_characters(line)
     # Remove instances of multiple spaces from line, replacing with a
-    # single space:
-    line = re_multiple_space.sub(" ", line)
+    # single space, as any other blanks (tabs, no-break spaces, etc):
+    line = re.sub(r"\s+", " ", line)
     return line
 
 
-- 
2.43.0


From 4f4876e89f4fd938cb2a89d246e3f6e6cd941b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:47 +0000
Subject: [PATCH 57/64] fix: use every term of a collaboration of a knowledge
 base, not only the last

---
 refextract/references/kbs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 768b44e..0ebbbee 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -574,13 +574,14 @@ def build_journals_kb(knowledgebase):
 
 def build_collaborations_kb(knowledgebase):
     kb = {}
-    for pattern, collab in knowledgebase:
+    # keyed by the term, several terms can stand for the same collaboration
+    for term, _collab in knowledgebase:
         prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
         collaboration_pattern = r"(?:\s*coll(?:aborations?|\.)?)?"
         suffix = r"(?=$|[><\]\)\"\s.,:])"
-        pattern = pattern.replace(" ", r"\s")
+        pattern = term.replace(" ", r"\s")
         pattern = pattern.replace("Collaboration", collaboration_pattern)
         re_pattern = "%s(%s)%s" % (prefix, pattern, suffix)
-        kb[collab] = re.compile(re_pattern, re.I | re.U)
+        kb[term] = re.compile(re_pattern, re.I | re.U)
 
     return kb
-- 
2.43.0


From 0fa79a58a0393960a83d054e3d1e7a0af2eac299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:28 +0000
Subject: [PATCH 58/64] fix: find the columns of PDF pages whose crop box does
 not start at 0

---
 refextract/references/pdf.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index df7864b..0954725 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -178,13 +178,11 @@ def _destination_position(pdf, destination):
     This representation is useful for sorting named destinations and
     assumes the text has at most 2 columns
     """
-    pagewidth = pdf.pages[
-        pdf.get_destination_page_number(destination)
-    ].cropbox.lower_right[0]
+    cropbox = pdf.pages[pdf.get_destination_page_number(destination)].cropbox
     if not destination.left or not destination.top:
         raise IncompleteCoordinatesError(destination)
     # assuming max 2 columns
-    column = (2 * destination.left) // pagewidth
+    column = _column(destination.left, cropbox)
     return (
         pdf.get_destination_page_number(destination),
         column,
@@ -193,6 +191,12 @@ def _destination_position(pdf, destination):
     )
 
 
+def _column(xpos, cropbox):
+    """Column of a page that has two of them, 0 for the left one"""
+    # the visible page need not start at 0
+    return (2 * (xpos - cropbox.lower_left[0])) // cropbox.width
+
+
 def _uri_position(pdf, uri_destination):
     """
     Gives a tuple (page, column, -y, x) representing the position of the URI
@@ -200,8 +204,7 @@ def _uri_position(pdf, uri_destination):
     page_nb = uri_destination.get("page_nb")
     destintation_left = uri_destination["/Rect"][0]
     destintation_top = uri_destination["/Rect"][3]
-    pagewidth = pdf.get_page(page_nb).cropbox.lower_right[0]
-    column = (2 * destintation_left) // pagewidth
+    column = _column(destintation_left, pdf.get_page(page_nb).cropbox)
     # neccessary to exclude column from sorting
     return (page_nb, column, -destintation_top, destintation_left)
 
-- 
2.43.0


From 266ae405661a17dc2c48bc136b2d8083dbba602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:02 +0000
Subject: [PATCH 59/64] fix: take the year of the journal for an article that
 has the title of a book

---
 refextract/references/engine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index fd467da..ed181b8 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -465,10 +465,12 @@ def add_year_elements(splitted_citations):
                 continue
 
         year = None
-        for el in citation:
-            if el["type"] == "JOURNAL" or el["type"] == "BOOK" and "year" in el:
-                year = el["year"]
-                break
+        # The title of an article can be that of a book too, so take the year
+        # of the journal first
+        for el_type in ("JOURNAL", "BOOK"):
+            for el in citation:
+                if not year and el["type"] == el_type:
+                    year = el.get("year")
 
         if not year:
             for el in citation:
-- 
2.43.0


From e1ac765e6f621372ba39c0f7902a4e4ac7978acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:12 +0000
Subject: [PATCH 60/64] fix: strip headers and footers of PDFs that end with an
 empty page

---
 refextract/documents/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/documents/pdf.py b/refextract/documents/pdf.py
index ce1f207..b22a35e 100644
--- a/refextract/documents/pdf.py
+++ b/refextract/documents/pdf.py
@@ -62,7 +62,7 @@ def convert_PDF_to_plaintext(fpath, keep_layout=False):
     # If this pattern is matched, we want to split the page-break into
     # its own line because we rely upon this for trying to strip headers
     # and footers, and for some other pattern matching.
-    p_break_in_line = re.compile(r"^\s*\f(.+)$", re.UNICODE)
+    p_break_in_line = re.compile(r"^\s*\f([^\f\n].*)$", re.UNICODE)
     # build pdftotext command:
     cmd_pdftotext = [
         CFG_PATH_PDFTOTEXT,
-- 
2.43.0


From 0ae170144aff58367074758cf42f65e27ab0ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:14 +0000
Subject: [PATCH 61/64] fix: take the last reference section of a document, not
 the first numbered one

---
 refextract/references/find.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 4c54b32..f4661bd 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -139,6 +139,8 @@ def find_numeration_in_body(docbody):
                 m_num = mark_match.group("marknum")
                 if m_num != "1":
                     continue
+                # Mark found
+                found_title = True
             except IndexError:
                 pass
 
-- 
2.43.0


From 74e1ed7ac69e6182779e5d71654b90d4667cd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:35 +0000
Subject: [PATCH 62/64] fix: keep a lower case series letter after the volume

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 1220b8c..4774d38 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -465,7 +465,7 @@ re_ibid = re.compile(r"(-|\b)?IBID(EM)?\.?", re.UNICODE)
 
 re_series_from_numeration = re.compile(r"^([A-Za-z])\s*[,\s:-]?\s*\d+", re.UNICODE)
 re_series_from_numeration_after_volume = re.compile(
-    r"^\d+\s*[,\s:-]?\s*([A-Z])", re.UNICODE
+    r"^\d+\s*[,\s:-]?\s*([A-Za-z])", re.UNICODE
 )
 
 # Obtain the series character from the standardised title text
-- 
2.43.0


From 17b3bc6784dc19273e7336c9529744a2cebd9ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:35 +0000
Subject: [PATCH 63/64] fix: find a collaboration written before 'and' and
 another one

---
 refextract/references/kbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 0ebbbee..1ea7dfe 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -578,7 +578,8 @@ def build_collaborations_kb(knowledgebase):
     for term, _collab in knowledgebase:
         prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
         collaboration_pattern = r"(?:\s*coll(?:aborations?|\.)?)?"
-        suffix = r"(?=$|[><\]\)\"\s.,:])"
+        # elements tagged already are underscores
+        suffix = r"(?=$|[><\]\)\"\s.,:]|__)"
         pattern = term.replace(" ", r"\s")
         pattern = pattern.replace("Collaboration", collaboration_pattern)
         re_pattern = "%s(%s)%s" % (prefix, pattern, suffix)
-- 
2.43.0


From 703519766158c24fabe5f958670bdbd59e84cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:21 +0000
Subject: [PATCH 64/64] fix: find journals given as expressions that end with
 punctuation

---
 refextract/references/tag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 78d594c..7e27f43 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -135,6 +135,10 @@ def tag_reference_line(line, kbs, record_titles_count):
 
     # Strip punctuation from the line:
     working_line2 = re_punctuation.sub(" ", working_line2)
+    journals_re_matches = [
+        (start, start + len(working_line2[start:end].rstrip()), title)
+        for start, end, title in journals_re_matches
+    ]
 
     # Remove multiple spaces from the line, recording
     # information about their coordinates:
-- 
2.43.0

