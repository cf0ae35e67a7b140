From d05a028e18001b05bf1c0ab476f85947ab803da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:52 +0000
Subject: [PATCH 01/40] fix: unresolved link labels crash or hang the inline
 parser

---
 md_toc/cmark/inlines_c.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index d61b571..1808b78 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1230,7 +1230,7 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
         return 0
 
     c = chr(_cmark_peek_char(subj))
-    while c and c != '[' and c != ']':
+    while not no_match and c != '\x00' and c != '[' and c != ']':
         if c == '\\':
             _cmark_advance(subj)
             length += 1
@@ -1242,21 +1242,24 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
             length += 1
 
         # MAX_LINK_LABEL_LENGTH is defined as 1000 while
-        # parser['cmark']['link']['max chars label'] is defined as 999.
+        # parser['cmark']['link']['max_chars_label'] is defined as 999.
         #     if (length > MAX_LINK_LABEL_LENGTH) {
-        if length > md_parser['cmark']['link']['max chars label'] + 1:
+        if length > md_parser['cmark']['link']['max_chars_label'] + 1:
             no_match = True
 
         c = chr(_cmark_peek_char(subj))
 
-    if no_match:
+    if no_match or c != ']':
         subj.pos = startpos  # rewind
         return 0
     else:
-        if c == ']':  # match found
-            raw_label = _cmark_cmark_chunk_dup(subj.input, startpos + 1,
-                                               subj.pos - (startpos + 1))
-        _cmark_cmark_chunk_trim(raw_label)
+        # match found
+        label: _cmarkCmarkChunk = _cmark_cmark_chunk_dup(
+            subj.input, startpos + 1, subj.pos - (startpos + 1))
+        _cmark_cmark_chunk_trim(label)
+        # In C the caller's chunk is overwritten through a pointer.
+        raw_label.data = label.data
+        raw_label.length = label.length
         _cmark_advance(subj)  # advance past ]
         return 1
 
-- 
2.43.0


From 7a8921fcfbcc7a66ee8cd0b08e89caf14e872060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:06 +0000
Subject: [PATCH 02/40] fix: unterminated inline link with a title crashes the
 inline parser

---
 md_toc/cmark/inlines_c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 1808b78..2d89f3c 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1405,7 +1405,9 @@ def _cmark_handle_close_bracket(subj: _cmarkSubject,
 
         endall = endtitle + _cmark_scan_spacechars(subj.input, endtitle)
 
-        if chr(_cmark_peek_at(subj, endall)) == ')':
+        # In C the byte after the end of the input is NUL.
+        if endall < subj.input.length and chr(_cmark_peek_at(
+                subj, endall)) == ')':
             subj.pos = endall + 1
 
             title_chunk = _cmark_cmark_chunk_dup(subj.input, starttitle,
-- 
2.43.0


From a2f521f0c836aa60ca242c98ed538d661228aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 03/40] fix: U+0100 is out of range of the special characters
 table

---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 2d89f3c..e61ce05 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2050,8 +2050,8 @@ def _cmark_subject_find_special_char(subj: _cmarkSubject, options: int) -> int:
         # Patch to avoid overflow problems.
         # FIXME: this should not be needed!
         # These two are not present in the original C source code.
-        if (ord(subj.input.data[n]) > len(SPECIAL_CHARS)
-                or ord(subj.input.data[n]) > len(SMART_PUNCT_CHARS)):
+        if (ord(subj.input.data[n]) >= len(SPECIAL_CHARS)
+                or ord(subj.input.data[n]) >= len(SMART_PUNCT_CHARS)):
             return n
 
         if SPECIAL_CHARS[ord(subj.input.data[n])] == 1:
-- 
2.43.0


From e1b67246c7e659dc3e03d5448aee942b8b915725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:07 +0000
Subject: [PATCH 04/40] fix: characters U+0080 to U+00BF before an emphasis
 delimiter are ignored

---
 md_toc/cmark/inlines_c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index e61ce05..cb3de7e 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -641,11 +641,9 @@ def _cmark_scan_delims(subj: _cmarkSubject, c: str) -> tuple:
     if subj.pos == 0:
         before_char = 10
     else:
+        # Python strings are made of code points: unlike in C there is no
+        # UTF-8 sequence to walk back to the beginning of.
         before_char_pos = subj.pos - 1
-        # walk back to the beginning of the UTF_8 sequence
-        while _cmark_peek_at(
-                subj, before_char_pos) >> 6 == 2 and before_char_pos > 0:
-            before_char_pos -= 1
 
         length, before_char = _cmark_cmark_utf8proc_iterate(
             subj.input.data[before_char_pos:],
-- 
2.43.0


From 52d6c56d9e642634f28110ffab372d1cdbd1337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:51 +0000
Subject: [PATCH 05/40] fix: underscore emphasis after a failed opener search
 is not recognised

---
 md_toc/cmark/inlines_c.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index cb3de7e..13c7de3 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -874,6 +874,11 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
         stack_bottom,
         stack_bottom,
         stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
     ]
 
     # move back to first relevant delim.
@@ -887,10 +892,12 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
                 openers_bottom_index = 0
             elif closer.delim_char == '\'':
                 openers_bottom_index = 1
-            elif closer.delim_char == '_':
+            elif closer.delim_char == '_' or closer.delim_char == '*':
+                # The lower bound of the searches depends on everything that
+                # decides whether an opener matches.
                 openers_bottom_index = 2
-            elif closer.delim_char == '*':
-                openers_bottom_index = 3
+                if closer.delim_char == '*':
+                    openers_bottom_index += 6
                 if closer.can_open:
                     openers_bottom_index += 3
                 else:
-- 
2.43.0


From b7ddfe2fa3ce00762252256413321c7472a1d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:55 +0000
Subject: [PATCH 06/40] fix: link destination ending in a backslash crashes the
 inline parser

---
 md_toc/cmark/buffer_c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/buffer_c.py b/md_toc/cmark/buffer_c.py
index fe71de4..afe05b2 100644
--- a/md_toc/cmark/buffer_c.py
+++ b/md_toc/cmark/buffer_c.py
@@ -330,7 +330,9 @@ def _cmark_cmark_strbuf_unescape(buf: _cmarkCmarkStrbuf):
     #     while r < len(buf.ptr)
     #
     while r < len(buf.ptr):
-        if buf.ptr[r] == '\\' and _cmark_cmark_ispunct(ord(buf.ptr[r + 1])):
+        # In C the byte after the end of the buffer is NUL.
+        if (buf.ptr[r] == '\\' and r + 1 < len(buf.ptr)
+                and _cmark_cmark_ispunct(ord(buf.ptr[r + 1]))):
             r += 1
 
         #     buf->ptr[w+] = buf->ptr[r];
-- 
2.43.0


From b5c69fd94d9a11d469ecd586f03f9d0af095fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 07/40] fix: the last line of an unclosed code fence is taken
 for a header

---
 md_toc/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4f13ad..b72dfcc 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -321,6 +321,7 @@ def build_toc(
             f.seek(file_pointer_pos)
 
         # Code fence detection.
+        was_within_code_fence = is_within_code_fence
         if is_within_code_fence:
             is_within_code_fence = not is_closing_code_fence(
                 line,
@@ -334,7 +335,9 @@ def build_toc(
                 # Update the status of the next line.
                 is_within_code_fence = True
 
-        if not is_within_code_fence or code_fence is None:
+        # The line that ends a code block, which is its last line if the
+        # block is not closed by a fence, is never a header.
+        if not is_within_code_fence and not was_within_code_fence:
 
             # Header detection and gathering.
             headers: list[types.Header] = get_md_header(
-- 
2.43.0


From 4e4e6edc371ac212bf57f3f24d9c8cbfbb4412af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 08/40] fix: a hidden header hides all the following ones of
 the same string

---
 md_toc/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index b72dfcc..5d81688 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1126,7 +1126,6 @@ def get_atx_heading(
         raise ValueError
 
     struct: list[types.AtxHeadingStructElement] = list()
-    line_visible: bool = True
 
     if len(line) == 0:
         return [{
@@ -1138,6 +1137,7 @@ def get_atx_heading(
     for subl in replace_and_split_newlines(line):
         current_headers = None
         final_line = None
+        line_visible: bool = True
 
         if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
 
@@ -1172,7 +1172,7 @@ def get_atx_heading(
             # We need to continue parsing to find possible duplicate headers
             # in other functions if we set keep_header_levels < max_levels.
             if i - offset > keep_header_levels:
-                line_visible: bool = False
+                line_visible = False
 
             current_headers = i - offset
 
-- 
2.43.0


From f4070b6985c2466ee29d8f61b2559a71f65c146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:46 +0000
Subject: [PATCH 09/40] fix: redcarpet ignores the maximum header level

---
 md_toc/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 5d81688..6bd1e6a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1319,6 +1319,9 @@ def get_atx_heading(
             if i < len(subl) and subl[i] != ' ':
                 continue
 
+            if current_headers > keep_header_levels:
+                line_visible = False
+
             while i < len(subl) and subl[i] == ' ':
                 i += 1
 
-- 
2.43.0


From 28f155957f761ac08aef7dcabca5bdfaee177e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:38 +0000
Subject: [PATCH 10/40] fix: redcarpet anchors contain the HTML tags and
 entities of the header

---
 md_toc/api.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 6bd1e6a..f50cdcb 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1023,15 +1023,19 @@ def build_anchor_link(
         inserted = 0
         stripped = 0
         header_text_trimmed_middle_stage = list()
-        for i in range(0, header_text_trimmed_len):
+        i: int = 0
+        while i < header_text_trimmed_len:
             if header_text_trimmed[i] == '<':
-                while i < header_text_trimmed_len and header_text_trimmed[
-                        i] != '>':
-                    i += 1
+                # Skip HTML tags.
+                tag = re.match('</?[A-Za-z][^>]*>', header_text_trimmed[i:])
+                if tag is not None:
+                    i += tag.end() - 1
             elif header_text_trimmed[i] == '&':
-                while i < header_text_trimmed_len and header_text_trimmed[
-                        i] != ';':
-                    i += 1
+                # Skip HTML entities.
+                entity = re.match('&(#[0-9]+|#[Xx][0-9A-Fa-f]+|[A-Za-z0-9]+);',
+                                  header_text_trimmed[i:])
+                if entity is not None:
+                    i += entity.end() - 1
             # str.find() == -1 if character is not found in str.
             # https://docs.python.org/3.6/library/stdtypes.html?highlight=find#str.find
             elif not generic._isascii(header_text_trimmed[i]) or STRIPPED.find(
@@ -1044,6 +1048,7 @@ def build_anchor_link(
                     header_text_trimmed[i].lower(), )
                 stripped = 0
                 inserted += 1
+            i += 1
 
         header_text_trimmed_middle_stage_str: str = ''.join(
             header_text_trimmed_middle_stage)
-- 
2.43.0


From 47b643c502ada74c0f4a32a722be17cf3f75178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:39 +0000
Subject: [PATCH 11/40] fix: redcarpet hash anchors of long or non-ASCII
 headers are wrong

---
 md_toc/api.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index f50cdcb..35ad956 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1058,15 +1058,11 @@ def build_anchor_link(
 
         if inserted == 0 and header_text_trimmed_len > 0:
             hash: int = 5381
-            for i in range(0, header_text_trimmed_len):
-                # Get the unicode representation with ord.
-                # Unicode should be equal to ASCII in ASCII's range of
-                # characters.
-                hash = ((hash << 5) + hash) + ord(header_text_trimmed[i])
-
-            # This is equivalent to %x in C. In Python we don't have
-            # the length problem so %x is equal to %lx in this case.
-            # Apparently there is no %l in Python...
+            for byte in header_text_trimmed.encode('UTF-8'):
+                # Redcarpet works on bytes and the hash is an unsigned long.
+                hash = (((hash << 5) + hash) + byte) & 0xffffffffffffffff
+
+            # This is equivalent to %lx in C.
             header_text_trimmed_middle_stage_str = 'part-' + '{:x}'.format(
                 hash)
 
-- 
2.43.0


From 971382ff21b489a562e363c82104a30c6dcc582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 12/40] fix: HTML declarations and CDATA sections are not
 removed from anchors

---
 md_toc/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 35ad956..09bb72d 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -972,10 +972,9 @@ def build_anchor_link(
         raise StringCannotContainNewlines
 
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
-        header_text_trimmed = header_text_trimmed.lower()
-
-        # Filter HTML tags.
+        # Filter HTML tags. Some of them are case sensitive.
         header_text_trimmed = remove_html_tags(header_text_trimmed, parser)
+        header_text_trimmed = header_text_trimmed.lower()
 
         # Filter "emphasis and strong emphasis".
         header_text_trimmed = remove_emphasis(header_text_trimmed, parser)
-- 
2.43.0


From 9042f832e9fdcdfc687400bf57009b9526ff0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:42 +0000
Subject: [PATCH 13/40] fix: anchor of a header ending with a backslash has an
 extra hyphen

---
 md_toc/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 09bb72d..bc2652b 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -971,6 +971,10 @@ def build_anchor_link(
     if len(replace_and_split_newlines(header_text_trimmed)) > 1:
         raise StringCannotContainNewlines
 
+    # The link label of a header ending with a backslash is followed by a
+    # space which is not part of the header.
+    header_text_trimmed = header_text_trimmed.strip(' ')
+
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         # Filter HTML tags. Some of them are case sensitive.
         header_text_trimmed = remove_html_tags(header_text_trimmed, parser)
-- 
2.43.0


From 02f43e4a788c19b4084f53ff65284fef4c2c89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:00 +0000
Subject: [PATCH 14/40] fix: invalid bytes in the skipped lines raise an
 exception

---
 md_toc/api.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index bc2652b..415b726 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -278,15 +278,15 @@ def build_toc(
         list_marker = md_parser[parser]['list']['ordered'][
             'default_closing_marker']
 
-    if skip_lines > 0:
-        loop: bool = True
-        line_counter = 1
-        while loop:
-            if line_counter > skip_lines or f.readline() == '':
-                loop = False
-            line_counter += 1
-
     try:
+        if skip_lines > 0:
+            loop: bool = True
+            line_counter = 1
+            while loop:
+                if line_counter > skip_lines or f.readline() == '':
+                    loop = False
+                line_counter += 1
+
         line = f.readline()
     except UnicodeDecodeError:
         return ''.join(
-- 
2.43.0


From 46276461b1b9bab8038ef5dbb43cd1e8a252e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:02 +0000
Subject: [PATCH 15/40] fix: the ordered list marker limit is not enforced for
 goldmark

---
 md_toc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 415b726..6d12803 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -549,7 +549,7 @@ def increase_index_ordered_list(
 
     header_type_count['h' + str(header_type_curr)] += 1
 
-    if parser in ['github', 'cmark', 'gitlab', 'commonmarker']:
+    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         if header_type_count['h' + str(header_type_curr)] > md_parser[
                 'github']['list']['ordered']['max_marker_number']:
             raise GithubOverflowOrderedListMarker
-- 
2.43.0


From 4b0baba7cbdeeb351c3f42155b94cab3093a5d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:03 +0000
Subject: [PATCH 16/40] fix: redcarpet TOC is a code block if the first header
 is not h1

---
 md_toc/api.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 6d12803..ae81bd0 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -248,6 +248,7 @@ def build_toc(
     header_type_curr: int = 0
     header_type_prev: int = 0
     header_type_first: int = 0
+    header_type_min: int = 0
     header_duplicate_counter: types.HeaderDuplicateCounter = {}
 
     if filename == '-':
@@ -399,6 +400,15 @@ def build_toc(
                     )
                     no_of_indentation_spaces_curr = indentation_log[
                         header_type_curr]['indentation_spaces']
+                    if parser in ['redcarpet']:
+                        # The outermost list must not be indented, otherwise
+                        # it is a code block.
+                        if header_type_min == 0:
+                            header_type_min = header_type_curr
+                        header_type_min = min(header_type_min,
+                                              header_type_curr)
+                        no_of_indentation_spaces_curr -= indentation_log[
+                            header_type_min]['indentation_spaces']
 
                 # endif
 
-- 
2.43.0


From 1d5a6c411b5540d2e6c20db98aad3eec09370385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:19 +0000
Subject: [PATCH 17/40] fix: TOCs with CR or CRLF newlines always differ from
 the ones in the files

---
 md_toc/api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index ae81bd0..2467607 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -61,7 +61,9 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     tocs_equal: bool = False
     r: tuple = generic._get_existing_toc(filename, marker)
     old_toc: str = r[0]
-    if current_toc.strip() == old_toc:
+    # The file is read with universal newlines.
+    if '\n'.join(
+            replace_and_split_newlines(current_toc)).strip() == old_toc:
         tocs_equal = True
     return tocs_equal
 
@@ -108,7 +110,8 @@ def write_string_on_file_between_markers(
     ) = generic._get_existing_toc(filename, marker)
 
     equal: bool = False
-    if string.strip() == old_toc:
+    # The file is read with universal newlines.
+    if '\n'.join(replace_and_split_newlines(string)).strip() == old_toc:
         equal = True
 
     generic._remove_line_intervals(filename, lines_to_delete)
-- 
2.43.0


From 8b8b362d78663823743efd9fa9861d8b466a8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:21 +0000
Subject: [PATCH 18/40] fix: newlines of the TOC are doubled in files written
 with CRLF newlines

---
 md_toc/api.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 2467607..51a21f3 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -94,10 +94,12 @@ def write_string_on_file_between_markers(
     if filename == '-':
         raise StdinIsNotAFileToBeWritten
 
-    # TOC that is written to the file.
+    # TOC that is written to the file. Line feeds are translated to
+    # newline_string when the file is written.
     final_toc_string: str = ''.join([
-        marker, newline_string, newline_string,
-        string.rstrip(), newline_string, newline_string, marker, newline_string
+        marker, '\n\n',
+        string.rstrip().replace('\r\n', '\n').replace('\r', '\n'), '\n\n',
+        marker, '\n'
     ])
 
     (
-- 
2.43.0


From 30aaafe4a72ef769047fb334482a9adec9b3d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:57 +0000
Subject: [PATCH 19/40] fix: an interrupted in-place update loses the TOC and
 its markers

---
 md_toc/api.py | 51 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 51a21f3..20dcb5e 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -26,7 +26,9 @@ import copy
 import hashlib
 import os
 import re
+import shutil
 import sys
+import tempfile
 import typing
 
 import fpyutils
@@ -116,23 +118,40 @@ def write_string_on_file_between_markers(
     if '\n'.join(replace_and_split_newlines(string)).strip() == old_toc:
         equal = True
 
-    generic._remove_line_intervals(filename, lines_to_delete)
-
-    # Only 1 pre-existing marker.
-    if not two_or_more_markers and marker_line_positions_length == 1:
-        generic._remove_line_intervals(
-            filename, [[marker_line_positions[1], marker_line_positions[1]]])
-
-    # 2 or more pre-existing markers.
+    # 1 or more pre-existing markers.
     if marker_line_positions_length >= 1:
-        fpyutils.filelines.insert_string_at_line(
-            filename,
-            final_toc_string,
-            first_marker_line_number,
-            filename,
-            append=False,
-            newline_character=newline_string,
-        )
+        # Several steps are needed: do all of them on a copy and replace the
+        # file only once, atomically, so that it is never left incomplete.
+        target: str = os.path.realpath(filename)
+        fd, work_file = tempfile.mkstemp(dir=os.path.dirname(target))
+        os.close(fd)
+        try:
+            shutil.copyfile(target, work_file)
+
+            generic._remove_line_intervals(work_file, lines_to_delete)
+
+            # Only 1 pre-existing marker.
+            if not two_or_more_markers and marker_line_positions_length == 1:
+                generic._remove_line_intervals(
+                    work_file,
+                    [[marker_line_positions[1], marker_line_positions[1]]])
+
+            fpyutils.filelines.insert_string_at_line(
+                work_file,
+                final_toc_string,
+                first_marker_line_number,
+                work_file,
+                append=False,
+                newline_character=newline_string,
+            )
+
+            with open(work_file, 'rb+') as f:
+                os.fsync(f.fileno())
+            shutil.copymode(target, work_file)
+            os.replace(work_file, target)
+        except BaseException:
+            os.unlink(work_file)
+            raise
 
     return equal
 
-- 
2.43.0


From 15436e0e076769055a36a3b1ec5748ab10052d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:10 +0000
Subject: [PATCH 20/40] fix: files are written before refusing to write
 standard input

---
 md_toc/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 20dcb5e..3fdf643 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -182,6 +182,9 @@ def write_strings_on_files_between_markers(
     """
     if not len(filenames) == len(strings):
         raise ValueError
+    # Do not write any file if there are some that cannot be written.
+    if '-' in filenames:
+        raise StdinIsNotAFileToBeWritten
 
     file_id: int = 0
     equal: bool = True
-- 
2.43.0


From b6c50ddf0839b7d427946d19e2c82ee300b4fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 21/40] fix: text of headers made of sequences of hashes is
 lost

---
 md_toc/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 3fdf643..fc13d7d 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1297,6 +1297,11 @@ def get_atx_heading(
                     if i > hash_round_start:
                         hash_char_rounds += 1
 
+            # The whole text is made of hashes and spaces: only the last
+            # sequence of hashes is the closing sequence.
+            if go and hash_char_rounds > 1:
+                cs_end = len_subl - hash_round_start
+
             final_line = subl[cs_start:cs_end]
 
             # Add escaping.
-- 
2.43.0


From cda3e9fc2317a5329258a719f77b75ae774c2c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:42 +0000
Subject: [PATCH 22/40] fix: link labels made of mixed whitespace characters
 are not refused

---
 md_toc/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index fc13d7d..9b7df5f 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1309,9 +1309,8 @@ def get_atx_heading(
                 if len(final_line) > 0 and final_line[-1] == '\u005c':
                     final_line = ''.join([final_line, ' '])
                 if len(
-                        final_line.strip('\u0020').strip('\u0009').strip(
-                            '\u000a').strip('\u000b').strip('\u000c').strip(
-                                '\u000d'), ) == 0:
+                        final_line.strip(
+                            '\u0020\u0009\u000a\u000b\u000c\u000d')) == 0:
                     raise GithubEmptyLinkLabel
                 if len(final_line,
                        ) > md_parser['github']['link']['max_chars_label']:
-- 
2.43.0


From cdaf65618aa58b88e50f36cdc7043ae4480e215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:53 +0000
Subject: [PATCH 23/40] fix: emphasis delimiters that close and then open
 emphasis are removed partially

---
 md_toc/cmark/inlines_c.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 13c7de3..af1e19a 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -136,6 +136,7 @@ class _cmarkDelimiter:
         'can_open',
         'can_close',
         'offset',
+        'closing_offset',
     ]
 
     def __init__(self):
@@ -147,8 +148,10 @@ class _cmarkDelimiter:
         self.can_open: bool = False
         self.can_close: bool = False
 
-        # Extra attribute.
+        # Extra attributes. The delimiters are used from the right by
+        # openers and from the left by closers.
         self.offset: int = 0
+        self.closing_offset: int = 0
 
 
 class _cmarkBracket:
@@ -1025,14 +1028,14 @@ def _cmark_remove_emph(subj: _cmarkSubject, opener: _cmarkDelimiter,
     # Custom variables and computations.
     opener_relative_start = opener_inl.end_column - use_delims - opener.offset
     opener_relative_end = opener_inl.end_column - opener.offset
-    closer_relative_start = closer_inl.start_column + closer.offset - 1
-    closer_relative_end = closer_inl.start_column + use_delims + closer.offset - 1
+    closer_relative_start = closer_inl.start_column + closer.closing_offset - 1
+    closer_relative_end = closer_inl.start_column + use_delims + closer.closing_offset - 1
 
     ignore.append(range(opener_relative_start, opener_relative_end))
     ignore.append(range(closer_relative_start, closer_relative_end))
 
     opener.offset += use_delims
-    closer.offset += use_delims
+    closer.closing_offset += use_delims
 
     # if opener has 0 characters, remove it and its associated inline
     if opener_num_chars == 0:
-- 
2.43.0


From 7a1d07f40e5f9f393bf2267fe90e74e355d18e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:21 +0000
Subject: [PATCH 24/40] fix: HTML comments of one character or with a
 greater-than sign are kept in anchors

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index f624ce3..9f87f35 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -120,7 +120,7 @@ parser: dict = {
 
             # 3. HTML comment.
             'COS': '<!--',
-            'COT': '((?!>|->)(?:(?!--).))+(?!-).?',
+            'COT': '(?!>|->)(?:(?!--).)*',
             'COE': '-->',
 
             # 4. Processing instructions.
-- 
2.43.0


From 27572d4a2d8c5df4f3c2d6655e8b995c318c759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:22 +0000
Subject: [PATCH 25/40] fix: some CDATA sections, declarations and closing tags
 are kept in anchors

---
 md_toc/constants.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 9f87f35..223a032 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -130,15 +130,15 @@ parser: dict = {
 
             # 5. Declarations.
             'DES': '<!',
-            'DEN': '[A-Z]+',
-            'DEB': '(?:(?!>).)+',
+            'DEN': '[A-Za-z]+',
+            'DEB': '(?:(?!>).)*',
             'DEE': '>',
 
             # 6. CDATA
             # Section.
             'CDS': r'<!\[CDATA\[',
             # Body.
-            'CDB': r'(?:(?!\]\]>).)+',
+            'CDB': r'(?:(?!\]\]>).)*',
             # End.
             'CDE': r'\]\]>',
 
@@ -257,6 +257,8 @@ parser['github']['re'].update({
     # This RE are specific to GFM.
     'GDRH':
     r'''(\b[tT][iI][tT][lL][eE]\b|\b[tT][eE][xX][tT][aA][rR][eE][aA]\b|\b[sS][tT][yY][lL][eE]\b|\b[xX][mM][pP]\b|\b[iI][fF][rR][aA][mM][eE]\b|\b[nN][oO][eE][mM][bB][eE][dD]\b|\b[nN][oO][fF][rR][aA][mM][eE][sS]\b|\b[sS][cC][rR][iI][pP][tT]\b|\b[pP][lL][aA][iI][nN][tT][eE][xX][tT]\b)''',
+    'DEN':
+    '[A-Z]+',
     'DEW':
     parser['github']['re']['WS'] + '+',
 })
@@ -273,7 +275,7 @@ parser['github']['re'].update({
      ')*' + '(' + parser['github']['re']['WS'] + ')*' + '(/)?' + '>'),
     # 2. Close tag.
     'CT': ('</' + parser['github']['re']['TN'] + parser['github']['re']['WS'] +
-           '?' + '>'),
+           '*' + '>'),
     # 5. Declarations.
     'DE': (parser['github']['re']['DES'] + parser['github']['re']['DEN'] +
            parser['github']['re']['DEW'] + parser['github']['re']['DEB'] +
-- 
2.43.0


From ab7f245d2802d8697f39f5ebde13e3d551386712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:24 +0000
Subject: [PATCH 26/40] fix: HTML tags inside other HTML elements leave the
 latter in anchors

---
 md_toc/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 9b7df5f..f563d0a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -864,8 +864,8 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
             md_parser[parser]['re']['DE'], md_parser[parser]['re']['CD']
         ]
 
-        for r in regexes:
-            line = re.sub(r, '', line, flags=re.DOTALL)
+        # Use a single pass: there are no tags inside of other tags.
+        line = re.sub('|'.join(regexes), '', line, flags=re.DOTALL)
 
     return line
 
-- 
2.43.0


From 77faf2b7cd85007400f40b03db456da4a6acf8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:06 +0000
Subject: [PATCH 27/40] fix: anchors are computed on the escaped link label
 instead of the header text

---
 md_toc/api.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index f563d0a..c29e84a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1450,17 +1450,27 @@ def get_md_header(
             r['header_text_trimmed'],
             'text_anchor_link':
             build_anchor_link(
-                r['header_text_trimmed'],
+                # The escape characters of the link label are not part of
+                # the header.
+                raw['header_text_trimmed'],
                 header_duplicate_counter,
                 parser,
             ),
             'visible':
             r['visible'],
-        } for r in get_atx_heading(
-            header_text_line,
-            keep_header_levels,
-            parser,
-            no_links,
+        } for r, raw in zip(
+            get_atx_heading(
+                header_text_line,
+                keep_header_levels,
+                parser,
+                no_links,
+            ),
+            get_atx_heading(
+                header_text_line,
+                keep_header_levels,
+                parser,
+                True,
+            ),
         )
     ]
 
-- 
2.43.0


From 0aa426d6318ee1cfd9dcef7054fd97b3ec329179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:12 +0000
Subject: [PATCH 28/40] fix: tags with hyphens starting with a disallowed name
 are kept in anchors

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 223a032..c1b31c3 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -264,7 +264,7 @@ parser['github']['re'].update({
 })
 
 parser['github']['re'].update({
-    'TN': ('(?!' + parser['github']['re']['GDRH'] + ')' +
+    'TN': ('(?!' + parser['github']['re']['GDRH'] + '(?!-))' +
            parser['github']['re']['TN']),
 })
 
-- 
2.43.0


From 6ab3c6ecc4622a9acc8fe82e8fb4532fd13659ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:17 +0000
Subject: [PATCH 29/40] fix: images are taken for links, so the links around
 them are not found

---
 md_toc/cmark/inlines_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index af1e19a..fdeaa64 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2115,7 +2115,7 @@ def _cmark_parse_inline(subj: _cmarkSubject,
         _cmark_handle_close_bracket(subj, ignore)
     elif chr(c) in ['!']:
         _cmark_advance(subj)
-        if _cmark_peek_char(subj) == '[':
+        if chr(_cmark_peek_char(subj)) == '[':
             _cmark_advance(subj)
             new_inl = _cmark_make_str(subj, subj.pos - 2, subj.pos - 1,
                                       _cmark_cmark_chunk_literal('!['))
-- 
2.43.0


From 6ba01400200f295be40b3714f070b6db8dc2bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:19 +0000
Subject: [PATCH 30/40] fix: underscores and asterisks in URI autolinks are
 taken for emphasis

---
 md_toc/cmark/scanners_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index b40d7c9..9fef527 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -113,7 +113,8 @@ def _cmark__scan_spacechars(ptr: str, p: int) -> int:
 
 # Try to match URI autolink after first <, returning number of chars matched.
 def _cmark__scan_autolink_uri(ptr: str, p: int) -> int:
-    return _common_scan('[:][^\x00-\x20<>]*[>]', ptr, p)
+    return _common_scan(
+        '[A-Za-z][A-Za-z0-9.+-]{1,31}[:][^\x00-\x20<>]*[>]', ptr, p)
 
 
 # Try to match email autolink after first <, returning num of chars matched.
-- 
2.43.0


From 13a61881066d49b2677cc858817046662cc0403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:21 +0000
Subject: [PATCH 31/40] fix: links with titles in parentheses or with escaped
 quotes are not found

---
 md_toc/cmark/scanners_c.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index 9fef527..adcd20f 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -95,12 +95,11 @@ def _common_scan(regex: str, ptr: str, p: int) -> int:
 # in parentheses), returning number of chars matched.  Allow one
 # level of internal nesting (quotes within quotes).
 def _cmark__scan_link_title(ptr: str, p: int) -> int:
-    r1 = '["](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + '|[^"\u0000])*["]'
-    r2 = "['](" + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + "|[^'\u0000])*[']"
-    r3 = r'[\(](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + r"|[^\(\)\u0000])*[']"
+    # A backslash is taken together with the next character, so that an escaped
+    # delimiter does not end the title.
+    r1 = r'["](\\[^\x00]|[^"\\\x00])*["]'
+    r2 = r"['](\\[^\x00]|[^'\\\x00])*[']"
+    r3 = r'[\(](\\[^\x00]|[^\(\)\\\x00])*[\)]'
     r = '(' + r1 + '|' + r2 + '|' + r3 + ')'
     return _common_scan(r, ptr, p)
 
-- 
2.43.0


From 2b60ded26b5ec26828db40a435c0aa9388556009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:22 +0000
Subject: [PATCH 32/40] fix: emphasis closed inside a link may be opened
 outside of it

---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index fdeaa64..c56007d 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -912,8 +912,8 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
             # Now look backwards for first matching opener:
             opener = closer.previous
             opener_found = False
-            while opener is not None and opener != openers_bottom[
-                    openers_bottom_index]:
+            while (opener is not None and opener is not stack_bottom
+                   and opener != openers_bottom[openers_bottom_index]):
                 if opener.can_open and opener.delim_char == closer.delim_char:
                     # interior closer of size 2 can't match opener of size 1
                     # or of size 1 can't match 2
-- 
2.43.0


From 7d6a7eb4ab004f875ac781d8fd7a35bc94129c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:24 +0000
Subject: [PATCH 33/40] fix: HTML attributes without values are not found by
 the inline parser

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index c1b31c3..e9be5d8 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -55,7 +55,7 @@ __cmark_singlequotedvalue = "(['][^'\x00]*['])"
 __cmark_doublequotedvalue = '(["][^"\x00]*["])'
 __cmark_attributevalue = '(' + __cmark_unquotedvalue + '|' + __cmark_singlequotedvalue + '|' + __cmark_doublequotedvalue + ')'
 __cmark_attributevaluespec = __cmark_spacechar + '*[=]' + __cmark_spacechar + '*' + __cmark_attributevalue
-__cmark_attribute = '(' + __cmark_spacechar + '+' + __cmark_attributename + __cmark_attributevaluespec + '?)'
+__cmark_attribute = '(' + __cmark_spacechar + '+' + __cmark_attributename + '(' + __cmark_attributevaluespec + ')?)'
 __cmark_opentag = __cmark_tagname + __cmark_attribute + '*' + __cmark_spacechar + '*[/]?[>]'
 __cmark_closetag = '[/]' + __cmark_tagname + __cmark_spacechar + '*[>]'
 
-- 
2.43.0


From 73120c9b66edc3b304b2fc3b4ea5f1c9ddce9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:58 +0000
Subject: [PATCH 34/40] fix: HTML in code spans and after backslashes is
 removed from anchors

---
 md_toc/api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index c29e84a..732e9b2 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -864,8 +864,15 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
             md_parser[parser]['re']['DE'], md_parser[parser]['re']['CD']
         ]
 
+        # There are no tags in code spans and after backslash escapes.
+        literal: str = (r'(?P<literal>\\[!-/:-@\[-`{-~]|'
+                        r'(?P<ticks>`+)(?!`)(.*?(?<!`)(?P=ticks)(?!`))?)')
+
         # Use a single pass: there are no tags inside of other tags.
-        line = re.sub('|'.join(regexes), '', line, flags=re.DOTALL)
+        line = re.sub('|'.join([literal] + regexes),
+                      lambda m: m.group('literal') or '',
+                      line,
+                      flags=re.DOTALL)
 
     return line
 
-- 
2.43.0


From 62ebfb94a9ce00cb56d2b167115f253594f5a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:02 +0000
Subject: [PATCH 35/40] fix: text next to HTML tags is taken for adjacent when
 looking for emphasis

remove_html_tags() is called before remove_emphasis() when building anchors,
so the delimiters and the backticks next to a tag were joined with what
follows the tag: the anchor of '<i>a</i>_b_' was 'a_b_' instead of 'ab'.
---
 md_toc/api.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 732e9b2..63afb55 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -855,6 +855,10 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
     :rtype: str
     :raises: a built-in exception.
     """
+    return _replace_html_tags(line, '', parser)
+
+
+def _replace_html_tags(line: str, replacement: str, parser: str) -> str:
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         # We need to match newline as well because it is a WS, so we
         # must use re.DOTALL.
@@ -870,7 +874,7 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
 
         # Use a single pass: there are no tags inside of other tags.
         line = re.sub('|'.join([literal] + regexes),
-                      lambda m: m.group('literal') or '',
+                      lambda m: m.group('literal') or replacement,
                       line,
                       flags=re.DOTALL)
 
@@ -1020,8 +1024,11 @@ def build_anchor_link(
     header_text_trimmed = header_text_trimmed.strip(' ')
 
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
-        # Filter HTML tags. Some of them are case sensitive.
-        header_text_trimmed = remove_html_tags(header_text_trimmed, parser)
+        # Filter HTML tags. Some of them are case sensitive. Leave the outer
+        # angle brackets, which are removed with the punctuation characters:
+        # what is near a tag is not adjacent when looking for emphasis.
+        header_text_trimmed = _replace_html_tags(header_text_trimmed, '<>',
+                                                 parser)
         header_text_trimmed = header_text_trimmed.lower()
 
         # Filter "emphasis and strong emphasis".
-- 
2.43.0


From 086092c40cdc92001f7960082dc87a1c3c82a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:42 +0000
Subject: [PATCH 36/40] fix: code spans after an unmatched backtick string are
 not found

The positions of the last backtick strings were overwritten by partial scans,
so that in '``_`a`b`_`' the second code span was not found and the underscores
were taken for emphasis.
---
 md_toc/cmark/inlines_c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index c56007d..5315fad 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -556,7 +556,9 @@ def _cmark_scan_to_closing_backticks(subj: _cmarkSubject,
 
         # store position of ender
         # Ender starting point.
-        if numticks <= MAXBACKTICKS:
+        # After a complete scan the last enders are known: do not replace them
+        # with the ones of a partial scan.
+        if numticks <= MAXBACKTICKS and not subj.scanned_for_backticks:
             subj.backticks[numticks] = subj.pos - numticks
 
         if numticks == openticklength:
-- 
2.43.0


From bc663d6ac1ba88c9143154084f770c6420246d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:01 +0000
Subject: [PATCH 37/40] fix: no-break and ideographic spaces end link
 destinations

Only ASCII whitespace characters do so: the delimiters of '_a [b](c\u3000d_)'
were taken for emphasis.
---
 md_toc/cmark/cmark_ctype_c.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/md_toc/cmark/cmark_ctype_c.py b/md_toc/cmark/cmark_ctype_c.py
index 88134d6..52d788d 100644
--- a/md_toc/cmark/cmark_ctype_c.py
+++ b/md_toc/cmark/cmark_ctype_c.py
@@ -21,7 +21,6 @@
 r"""The cmark implementation file."""
 
 import string
-import unicodedata
 
 from ..constants import parser as md_parser
 
@@ -33,11 +32,9 @@ from ..constants import parser as md_parser
 # Return True if c is a "whitespace" character as defined by the spec.
 # 0.30
 def _cmark_cmark_isspace(char: int) -> bool:
-    # A Unicode whitespace character is any code point in the Unicode Zs
-    # general category, or a tab (U+0009), line feed (U+000A), form feed
-    # (U+000C), or carriage return (U+000D).
-    return (unicodedata.category(chr(char)) == 'Zs'
-            or chr(char) in ['\u0009', '\u000A', '\u000C', '\u000D'])
+    # See the cmark_ctype_class table: only ASCII characters. For Unicode
+    # whitespace characters see _cmark_cmark_utf8proc_is_space.
+    return chr(char) in ['\u0009', '\u000A', '\u000C', '\u000D', ' ']
 
 
 # Return True if c is an ascii punctuation character.
-- 
2.43.0


From 81f295c56d6881e14104565f80278860e6e0ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:15 +0000
Subject: [PATCH 38/40] fix: HTML tags are removed before looking for emphasis
 and code spans

Text without its tags has other delimiters, code spans and links: in
'[a](_<b c="d">_)' the removal of the tag made a link destination. Find the
tags and the emphasis in the same text.
---
 md_toc/api.py | 66 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 63afb55..70c0a95 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -855,10 +855,11 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
     :rtype: str
     :raises: a built-in exception.
     """
-    return _replace_html_tags(line, '', parser)
+    return filter_indices_from_line(line, _find_html_tags(line, parser))
 
 
-def _replace_html_tags(line: str, replacement: str, parser: str) -> str:
+def _find_html_tags(line: str, parser: str) -> list[range]:
+    ranges: list[range] = []
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         # We need to match newline as well because it is a WS, so we
         # must use re.DOTALL.
@@ -873,12 +874,13 @@ def _replace_html_tags(line: str, replacement: str, parser: str) -> str:
                         r'(?P<ticks>`+)(?!`)(.*?(?<!`)(?P=ticks)(?!`))?)')
 
         # Use a single pass: there are no tags inside of other tags.
-        line = re.sub('|'.join([literal] + regexes),
-                      lambda m: m.group('literal') or replacement,
-                      line,
-                      flags=re.DOTALL)
+        for match in re.finditer('|'.join([literal] + regexes),
+                                 line,
+                                 flags=re.DOTALL):
+            if match.group('literal') is None:
+                ranges.append(range(*match.span()))
 
-    return line
+    return ranges
 
 
 def remove_emphasis(line: str, parser: str = 'github') -> str:
@@ -905,23 +907,10 @@ def remove_emphasis(line: str, parser: str = 'github') -> str:
             'github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',
             'redcarpet'
     ]:
-        mem = None
-        refmap = references_h._cmarkCmarkReferenceMap()
-
-        parent = node_h._cmarkCmarkNode()
-
         # Remove NULL bytes.
         line = line.replace('\x00', '')
 
-        parent.data = line
-        parent.length = len(line)
-        parent.start_line = 0
-        parent.start_column = 0
-        parent.internal_offset = 1
-
-        ignore: list[range] = inlines_c._cmark_cmark_parse_inlines(
-            mem, parent, refmap, 0)
-        line = filter_indices_from_line(line, ignore)
+        line = filter_indices_from_line(line, _find_emphasis(line))
 
     elif parser in ['redcarpet']:
         # TODO
@@ -930,6 +919,21 @@ def remove_emphasis(line: str, parser: str = 'github') -> str:
     return line
 
 
+def _find_emphasis(line: str) -> list[range]:
+    mem = None
+    refmap = references_h._cmarkCmarkReferenceMap()
+
+    parent = node_h._cmarkCmarkNode()
+
+    parent.data = line
+    parent.length = len(line)
+    parent.start_line = 0
+    parent.start_column = 0
+    parent.internal_offset = 1
+
+    return inlines_c._cmark_cmark_parse_inlines(mem, parent, refmap, 0)
+
+
 def filter_indices_from_line(line: str, ranges: list[range]) -> str:
     r"""Given a line and a Python ranges, remove the characters in the ranges.
 
@@ -945,7 +949,7 @@ def filter_indices_from_line(line: str, ranges: list[range]) -> str:
     rng: list[typing.Sequence[int]] = [list(r) for r in ranges]
 
     # Flatten list.
-    rng_flat: list[int] = sorted([item for e in rng for item in e])
+    rng_flat: set[int] = set([item for e in rng for item in e])
 
     return ''.join([line[i] for i in range(0, len(line)) if i not in rng_flat])
 
@@ -1024,16 +1028,18 @@ def build_anchor_link(
     header_text_trimmed = header_text_trimmed.strip(' ')
 
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
-        # Filter HTML tags. Some of them are case sensitive. Leave the outer
-        # angle brackets, which are removed with the punctuation characters:
-        # what is near a tag is not adjacent when looking for emphasis.
-        header_text_trimmed = _replace_html_tags(header_text_trimmed, '<>',
-                                                 parser)
+        # Remove NULL bytes.
+        header_text_trimmed = header_text_trimmed.replace('\x00', '')
+
+        # Filter HTML tags and "emphasis and strong emphasis". Find both in the
+        # original text: without the tags other delimiters would be found and
+        # vice versa. Some of the tags are case sensitive.
+        header_text_trimmed = filter_indices_from_line(
+            header_text_trimmed,
+            _find_html_tags(header_text_trimmed, parser) +
+            _find_emphasis(header_text_trimmed))
         header_text_trimmed = header_text_trimmed.lower()
 
-        # Filter "emphasis and strong emphasis".
-        header_text_trimmed = remove_emphasis(header_text_trimmed, parser)
-
         # Remove punctuation characters.
         header_text_trimmed = anchor_link_punctuation_filter(
             header_text_trimmed, parser)
-- 
2.43.0


From 4bbf0ee3dc34af392d3fe003516a7a1bf41eab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:12 +0000
Subject: [PATCH 39/40] fix: CDATA sections and processing instructions ending
 in ']]]>' or '??>' are not found

The inline parser looked for emphasis in '_a <?b_??>'.
---
 md_toc/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index e9be5d8..fe7d61d 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -153,11 +153,11 @@ parser: dict = {
             # Some of these expressions are a duplicate of parser['cmark']['re'] dicts.
             'spacechar': __cmark_spacechar,
             'escaped_char': '([\\][!"#$%&\'()*+,./:;<=>?@[\\\\]^_`{|}~-])',
-            'cdata': r'CDATA\[([^\]\x00]+|\][^\]\x00]|\]\][^>\x00])*',
+            'cdata': r'CDATA\[((?!\]\]>)[^\x00])*',
             'htmltag': '(' + __cmark_opentag + '|' + __cmark_closetag + ')',
             'htmlcomment': '(--->|(-([-]?[^\x00>-])([-]?[^\x00-])*-->))',
             'declaration': '[A-Z]+' + __cmark_spacechar + '+' + '[^>\x00]*',
-            'processinginstruction': '([^?>\x00]+|[?][^>\x00]|[>])+',
+            'processinginstruction': r'((?!\?>)[^\x00])*',
         },
     },
     'redcarpet': {
-- 
2.43.0


From cca00815e09f54f53839b4fee6a62b635b684857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:53 +0000
Subject: [PATCH 40/40] fix: redcarpet label ending with a backslash before a
 closing sequence breaks its link

'# A\ #' gave '[A\](#a)', whose bracket is escaped.
---
 md_toc/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 70c0a95..e31196a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1407,6 +1407,10 @@ def get_atx_heading(
                     final_line += ' '
                     end += 1
                 final_line = final_line[i:end]
+                # A backslash before the closing sequence.
+                if not no_links and re.search(r'(?<!\\)(\\\\)*\\$',
+                                              final_line):
+                    final_line += ' '
 
             if final_line is None:
                 current_headers = None
-- 
2.43.0

