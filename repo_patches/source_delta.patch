From d8369344185c50cf18a51a66dbf1faa73a2deee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 01/17] fix: do not abort on CSI ... m sequences with private
 markers, empty or oversized parameters

---
 kolombos/byteio/parser/parser.py                | 3 ++-
 kolombos/byteio/template/template_escape_sgr.py | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 098859f..4ea9250 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -125,7 +125,8 @@ class Parser:
         raise TypeError(f'Match must resolve to template or resolver, got {tpl!r}')
 
     def _resolve_escape_seq_csi(self, m: Match) -> Template:  # @FIXME transform resolver to regexp composite
-        is_sgr = (m.group(8) == b'm')
+        # parameters with private markers ('<', '=', '>', '?') make it a CSI sequence of some other kind
+        is_sgr = (m.group(8) == b'm') and re.fullmatch(b'[0-9;:]*', m.group(6)) is not None
         if is_sgr:
             sgr_params = m.group(6)                             # ↕ overload substitute() for EscapeSequenceSGRTemplate
             if sgr_params == b'' or sgr_params == b'0':         # allow passing in marker details format
diff --git a/kolombos/byteio/template/template_escape_sgr.py b/kolombos/byteio/template/template_escape_sgr.py
index dfcf912..b95a81d 100644
--- a/kolombos/byteio/template/template_escape_sgr.py
+++ b/kolombos/byteio/template/template_escape_sgr.py
@@ -36,7 +36,7 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._details_fmt_str = s.decode('ascii')
 
         params = self._details_fmt_str.split(';')
-        pcodes = [int(p.split(":")[0]) for p in params if p]
+        pcodes = [self._parse_pcode(p) for p in params if p]
         pcodes_allowed = []
         brief_names = []
         while len(pcodes):  # @TODO automatically set black/white text if only bg color is defined, and vice versa
@@ -62,6 +62,10 @@ class EscapeSequenceSGRTemplate(EscapeSequenceTemplate):
         self._brief_details_processed = f'{Seqs.UNDERLINED_OFF}{self.M1_SEPARATOR}{Seqs.UNDERLINED}'.join(str(bn) for bn in brief_names)
         self._details_opening_seq = SequenceSGR(*pcodes_allowed)
 
+    def _parse_pcode(self, param: str) -> int:
+        code = param.split(':')[0].lstrip('0')
+        return int(code[:9] or 0)  # an omitted value means 0; there are no codes that long, but there may be such input
+
     def _get_brief_details_processed(self) -> str:
         if self._brief_details_processed is not None:
             return self._brief_details_processed
-- 
2.43.0


From 9c7493d228fbaac579d1645ceae3503b2cde45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 02/17] fix: keep details and separators that follow the last
 byte of the input in text mode

---
 kolombos/byteio/segment/buffer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kolombos/byteio/segment/buffer.py b/kolombos/byteio/segment/buffer.py
index b417ea0..65b3524 100644
--- a/kolombos/byteio/segment/buffer.py
+++ b/kolombos/byteio/segment/buffer.py
@@ -75,7 +75,7 @@ class SegmentBuffer:
             raise EOFError
 
         if has_newline or force:
-            detached = self._detach(avail_bytes)
+            detached = self._detach(avail_bytes, drain=not has_newline)
             return self._format_multiple(detached, printers)
 
         self._debug_buffer.write(1, 'Responsing with WaitRequest')
@@ -107,7 +107,8 @@ class SegmentBuffer:
 
         return result
 
-    def _detach(self, req_bytes: int) -> List[Chainable]:
+    def _detach(self, req_bytes: int, drain: bool = False) -> List[Chainable]:
+        # 'drain' includes trailing zero-length segments (e.g. details and separators) after the last requested byte
         self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
 
         if len(self._segment_chain) == 0:
@@ -119,7 +120,7 @@ class SegmentBuffer:
             cur_element = self._segment_chain[0]
 
             if isinstance(cur_element, Segment):
-                if req_bytes == 0:
+                if req_bytes == 0 and not drain:
                     break
 
                 if cur_element.data_len <= req_bytes:
@@ -134,7 +135,7 @@ class SegmentBuffer:
                     break
 
             elif isinstance(cur_element, StartSequenceRef):
-                if req_bytes == 0:
+                if req_bytes == 0 and not drain:
                     break
                 output.append(cur_element)
                 self._active_sgrs.append(cur_element.ref)
-- 
2.43.0


From a2c29ae058c4ffda7a594f2d8e085efe3bede228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 03/17] fix: keep actual byte value in markers of control
 characters with details

---
 kolombos/byteio/template/template_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/template/template_control.py b/kolombos/byteio/template/template_control.py
index 93727ca..785b4b0 100644
--- a/kolombos/byteio/template/template_control.py
+++ b/kolombos/byteio/template/template_control.py
@@ -40,7 +40,7 @@ class ControlCharGenericTemplate(Template):
             label_processed = self._process_byte(label_raw)
             self._substituted.append(self._create_primary_segment(
                 self._opening_seq_stack.get(self._display_mode, self._read_mode),
-                bytes(label_raw),
+                bytes([label_raw]),
                 label_processed,
             ))
             self._fill_additional_segments(label_raw)
-- 
2.43.0


From d58d883ba3de4a52303177b7639e5ba4158d6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 04/17] fix: recognise UTF-8 sequences that follow invalid
 bytes

---
 kolombos/byteio/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 4ea9250..c0d2c54 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -37,7 +37,7 @@ class Parser:
                 b'\xf4[\x80-\x8f][\x80-\xbf]{2}'       # - plane 16           # double slash in grp 4 is essential or #
                 b')|'                                                         # regex goes batshit crazy: \x5b is '[' #
                 +                                                             # # # # # # # # # # # # # # # # # # # # #
-                b'([\x80-\xff]+)|'                     # [1] BINARY DATA                                              |
+                b'([\x80-\xc1\xf5-\xff]+|[\x80-\xff])|'  # [1] BINARY DATA (should not swallow next UTF-8 sequence)  |
                 +                                                             # ESCAPE SEQUENCES                      |
                 b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'  # [ 2|  3-7] CSI/SGR sequences   <- - - +
                 b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|'          # [ 8| 9-12] nF escape sequences
-- 
2.43.0


From 2e0afd35bb49821c5330f590afd4fc9ac6b4482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:38 +0000
Subject: [PATCH 05/17] fix: recognise UTF-8 and escape sequences split between
 two reads

---
 kolombos/byteio/parser/buffer.py |  5 ++---
 kolombos/byteio/parser/parser.py | 20 ++++++++++++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/kolombos/byteio/parser/buffer.py b/kolombos/byteio/parser/buffer.py
index bc89d04..9adc76b 100644
--- a/kolombos/byteio/parser/buffer.py
+++ b/kolombos/byteio/parser/buffer.py
@@ -35,11 +35,10 @@ class ParserBuffer:
             self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
             return
 
-        offset_delta = self._raw_buffer.find(new_buffer)
-        if offset_delta == -1:
+        if not self._raw_buffer.endswith(new_buffer):
             raise RuntimeError(f'New buffer is not a part of the current one: {Console.printd(new_buffer, 32)}')
 
-        self._raw_buffer = self._raw_buffer[offset_delta:]
+        self._raw_buffer = new_buffer
         self._debug_buffer.write(3, f'Cropping')
         self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')
 
diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index c0d2c54..800c285 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -59,6 +59,16 @@ class Parser:
                 b'([\x21-\x7e]+)',                     # [33] printable chars (letters, digits, punctuation)
             self._substitute)
 
+        # beginning of a UTF-8 or escape sequence at the end of a chunk; the rest of it can be in the next chunk
+        self.INCOMPLETE_TAIL_REGEXP = re.compile(
+            b'('
+            b'[\xc2-\xdf]|'
+            b'[\xe0-\xef][\x80-\xbf]?|'
+            b'[\xf0-\xf4][\x80-\xbf]{0,2}|'
+            b'\x1b\\[[\x30-\x3f]*[\x20-\x2f]*|'
+            b'\x1b[\x20-\x2f]*'
+            b')\\Z')
+
         self.MGROUP_TO_TPL_MAP: Dict[int, Template|MatchResolver] = {  # @FIXME map templates to regexps
             0: self._template_registry.UTF_8_SEQ,                      #        and build F_SEPARATOR automatically?
             1: self._template_registry.BINARY_DATA,
@@ -82,11 +92,17 @@ class Parser:
         }
 
         self._offset = 0
+        self._incomplete_len = 0
         self._debug_buffer = ConsoleDebugBuffer('parser', Seqs.CYAN)
 
     def parse(self, offset: int):
         raw = self._parser_buffer.get_raw()
-        self._offset = offset
+        self._offset = offset - self._incomplete_len
+        incomplete = b''
+        if not self._parser_buffer.closed:
+            if m := self.INCOMPLETE_TAIL_REGEXP.search(raw):
+                raw, incomplete = raw[:m.start()], raw[m.start():]
+        self._incomplete_len = len(incomplete)
         self._debug_buffer.write(1, f'Parsing segment: {Console.printd(raw)}')
 
         unmatched = apply_filters(raw, self.F_SEPARATOR)
@@ -95,7 +111,7 @@ class Parser:
         except AssertionError as e:
             raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
 
-        self._parser_buffer.crop_raw(unmatched)
+        self._parser_buffer.crop_raw(incomplete)
 
     def _substitute(self, m: Match) -> bytes:
         mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
-- 
2.43.0


From f95858075962e77692576bf847eb31ef0cb0acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 06/17] fix: print offsets longer than 8 characters in full

---
 kolombos/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/console.py b/kolombos/console.py
index 244237d..15a0b0b 100644
--- a/kolombos/console.py
+++ b/kolombos/console.py
@@ -252,7 +252,7 @@ class Console:
 
     @staticmethod
     def format_prefix(label: str, f: Span) -> str:
-        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}.{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
+        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()
         prefix = re.sub('0x', lambda m: Spans.DIM(m.group()), prefix)
         return prefix
 
-- 
2.43.0


From b753bf250214fef6bbaf6d6409194d95d88538d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:57 +0000
Subject: [PATCH 07/17] fix: never use zero or negative amount of columns,
 reject negative sizes and limits

---
 kolombos/arghelp.py                 | 17 ++++++++++++-----
 kolombos/byteio/formatter/binary.py |  4 ++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/kolombos/arghelp.py b/kolombos/arghelp.py
index e9984fe..9164338 100644
--- a/kolombos/arghelp.py
+++ b/kolombos/arghelp.py
@@ -4,7 +4,7 @@
 # -----------------------------------------------------------------------------
 import re
 import textwrap
-from argparse import HelpFormatter, Action, ArgumentParser, SUPPRESS
+from argparse import HelpFormatter, Action, ArgumentParser, ArgumentTypeError, SUPPRESS
 from typing import Optional, Iterable, List
 
 import pytermor.common
@@ -16,6 +16,13 @@ from .byteio import Reader
 from .byteio.template import Template
 
 
+def non_negative_int(value: str) -> int:
+    result = int(value)
+    if result < 0:
+        raise ArgumentTypeError(f'expected non-negative integer, got {value}')
+    return result
+
+
 class CustomHelpFormatter(HelpFormatter):
     INDENT_INCREMENT = 2
     INDENT = ' ' * INDENT_INCREMENT
@@ -178,9 +185,9 @@ class AppArgumentParser(CustomArgumentParser):
         binary_output_group.add_argument('-I', '--ignore-binary', action='store_true', default=False, help='dim/hide binary data')
 
         generic_group = self.add_argument_group('generic options')
-        generic_group.add_argument('-f', '--buffer', metavar='<size>', type=int, default=None, help=ren('read buffer size, in bytes '+fmt_default(f'[default: {Reader.READ_CHUNK_SIZE}]')))
-        generic_group.add_argument('-L', '--max-lines', metavar='<num>', action='store', type=int, default=0, help=ren('stop after reading <num> lines '+fmt_default('[default: no limit]')))
-        generic_group.add_argument('-B', '--max-bytes', metavar='<num>', action='store', type=int, default=0, help=ren('stop after reading <num> bytes '+fmt_default('[default: no limit]')))
+        generic_group.add_argument('-f', '--buffer', metavar='<size>', type=non_negative_int, default=None, help=ren('read buffer size, in bytes '+fmt_default(f'[default: {Reader.READ_CHUNK_SIZE}]')))
+        generic_group.add_argument('-L', '--max-lines', metavar='<num>', action='store', type=non_negative_int, default=0, help=ren('stop after reading <num> lines '+fmt_default('[default: no limit]')))
+        generic_group.add_argument('-B', '--max-bytes', metavar='<num>', action='store', type=non_negative_int, default=0, help=ren('stop after reading <num> bytes '+fmt_default('[default: no limit]')))
         generic_group.add_argument('-D', '--debug', action='count', default=0, help='enable debug mode; can be used from 1 to 4 times, each level increases verbosity (-D|DD|DDD|DDDD)')
         generic_group.add_argument('--color-markers', action='store_true', default=False, help='apply SGR marker format to themselves')
 
@@ -192,7 +199,7 @@ class AppArgumentParser(CustomArgumentParser):
         text_mode_group.add_argument('--no-line-numbers', action='store_true', default=False, help='do not print line numbers')
 
         bin_mode_group = self.add_argument_group('binary mode options')
-        bin_mode_group.add_argument('-w', '--columns', metavar='<num>', action='store', type=int, default=0, help=ren('format output as <num>-columns wide table '+fmt_default('[default: auto]')))
+        bin_mode_group.add_argument('-w', '--columns', metavar='<num>', action='store', type=non_negative_int, default=0, help=ren('format output as <num>-columns wide table '+fmt_default('[default: auto]')))
         bin_mode_group.add_argument('-d', '--decode', action='store_true', default=False, help='decode valid UTF-8 sequences, print as unicode chars')
         offsets_group = bin_mode_group.add_mutually_exclusive_group()
         offsets_group.add_argument('--decimal-offsets', action='store_true', default=False, help=ren('output offsets in decimal format '+fmt_default('[default: hex format]')))
diff --git a/kolombos/byteio/formatter/binary.py b/kolombos/byteio/formatter/binary.py
index a10486c..f5fa04b 100644
--- a/kolombos/byteio/formatter/binary.py
+++ b/kolombos/byteio/formatter/binary.py
@@ -33,7 +33,7 @@ class BinaryFormatter(AbstractFormatter):
 
     def format(self):
         cur_cols = self._cols
-        if cur_cols is None:
+        if not cur_cols:  # not set or 0 (auto)
             prefix_example = Console.format_prefix_with_offset(self._offset, NOOP_SPAN)
             cur_cols = self._compute_cols_num(len(prefix_example))
 
@@ -104,7 +104,7 @@ class BinaryFormatter(AbstractFormatter):
         chunk_len = (3 * self.BYTE_CHUNK_LEN) + \
                     (self.BYTE_CHUNK_LEN - 1) + \
                     len(self.PADDING_HEX_CHUNK)
-        chunk_fit = floor(available_total / chunk_len)
+        chunk_fit = max(1, floor(available_total / chunk_len))
 
         result = chunk_fit * self.BYTE_CHUNK_LEN
         self._debug_buffer.write(2, f'Columns amount set to: {Spans.BOLD(result)}')
-- 
2.43.0


From f65444f21ae3bc9e86d0834ea7fffda5211cfcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:07 +0000
Subject: [PATCH 08/17] fix: do not send C1 control codes encoded in UTF-8 to
 the terminal

---
 kolombos/byteio/template/template_utf8.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kolombos/byteio/template/template_utf8.py b/kolombos/byteio/template/template_utf8.py
index d5ba2fc..b25cc81 100644
--- a/kolombos/byteio/template/template_utf8.py
+++ b/kolombos/byteio/template/template_utf8.py
@@ -12,6 +12,7 @@ from .. import CharClass, OpeningSeqPOV, LabelPOV
 
 class Utf8SequenceTemplate(Template):
     DECODED_LEFT_FILL_CHAR = '_'
+    C1_CONTROL_LABEL = '▯'
 
     def __init__(self, opening_seq: SequenceSGR | OpeningSeqPOV, label: str | LabelPOV = ''):
         super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)
@@ -24,6 +25,8 @@ class Utf8SequenceTemplate(Template):
 
         if self._read_mode.is_text or self._decode:
             decoded = raw.decode('utf8', errors='replace')
+            if '\x80' <= decoded <= '\x9f':  # terminals interpret these as control codes
+                decoded = self.C1_CONTROL_LABEL
             if self._read_mode.is_binary:
                 if len(decoded) < len(raw):
                     decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
-- 
2.43.0


From 04994b47a23b2fa52e11592d3a56d1417634fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:17 +0000
Subject: [PATCH 09/17] fix: allow reading from named pipes and other
 non-seekable files

---
 kolombos/byteio/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kolombos/byteio/reader.py b/kolombos/byteio/reader.py
index d6367cf..1d2ad6c 100644
--- a/kolombos/byteio/reader.py
+++ b/kolombos/byteio/reader.py
@@ -42,7 +42,7 @@ class Reader(metaclass=abc.ABCMeta):
         try:
             while raw_input := self._io.read(self._chunk_size):
                 self._debug_buffer.write(1, f'Read chunk #{chunks}: {Console.printd(raw_input, 5)}', offset=self._offset)
-                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin else "n/a")}', offset=self._offset)
+                self._debug_buffer.write(3, f'Current position: {Spans.BOLD(self._io.tell() if not self.reading_stdin and self._io.seekable() else "n/a")}', offset=self._offset)
                 chunks += 1
                 if max_lines:
                     for line_break in re.finditer(b'\x0a', raw_input):
-- 
2.43.0


From f882de75297c960e2a2f187a8182e9130248bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 10/17] fix: reading effective settings in debug mode should
 not change operating mode

---
 kolombos/settings.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/kolombos/settings.py b/kolombos/settings.py
index 811f107..c2353ea 100644
--- a/kolombos/settings.py
+++ b/kolombos/settings.py
@@ -57,9 +57,6 @@ class Settings(Namespace):
         elif self.text:
             return ReadMode.TEXT
         # auto
-
-        self.text = self._default_read_mode.is_text
-        self.binary = self._default_read_mode.is_binary
         return self._default_read_mode
 
     def set_default_read_mode(self, val: ReadMode):
@@ -81,7 +78,7 @@ class Settings(Namespace):
 
     @property
     def effective_marker_details(self) -> MarkerDetailsEnum:
-        if self.binary:
+        if self.read_mode.is_binary:
             return MarkerDetailsEnum.BINARY_STRICT
 
         if self.marker <= 0:
-- 
2.43.0


From 143bd5bf5575f9c36f36849182b38e9d5627802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 11/17] fix: CSI sequences with intermediate bytes are not
 colour sequences

---
 kolombos/byteio/parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kolombos/byteio/parser/parser.py b/kolombos/byteio/parser/parser.py
index 800c285..92fbcbf 100644
--- a/kolombos/byteio/parser/parser.py
+++ b/kolombos/byteio/parser/parser.py
@@ -141,8 +141,8 @@ class Parser:
         raise TypeError(f'Match must resolve to template or resolver, got {tpl!r}')
 
     def _resolve_escape_seq_csi(self, m: Match) -> Template:  # @FIXME transform resolver to regexp composite
-        # parameters with private markers ('<', '=', '>', '?') make it a CSI sequence of some other kind
-        is_sgr = (m.group(8) == b'm') and re.fullmatch(b'[0-9;:]*', m.group(6)) is not None
+        # private markers ('<', '=', '>', '?') or intermediate bytes make it a CSI sequence of some other kind
+        is_sgr = (m.group(8) == b'm') and not m.group(7) and re.fullmatch(b'[0-9;:]*', m.group(6)) is not None
         if is_sgr:
             sgr_params = m.group(6)                             # ↕ overload substitute() for EscapeSequenceSGRTemplate
             if sgr_params == b'' or sgr_params == b'0':         # allow passing in marker details format
-- 
2.43.0


From ac788032e89625c8a2719e0786db581d888c8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:42 +0000
Subject: [PATCH 12/17] fix: keep sequences specified explicitly on Span
 creation

---
 pytermor/ansi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/ansi.py b/pytermor/ansi.py
index 416e543..c7e329e 100644
--- a/pytermor/ansi.py
+++ b/pytermor/ansi.py
@@ -348,7 +348,7 @@ class Span:
 
     @classmethod
     def _opt_arg(self, arg: SequenceSGR | None) -> SequenceSGR:
-        if not arg:
+        if arg is None:  # sequences themselves have zero length and therefore are always falsy
             return NOOP_SEQ
         return arg
 
-- 
2.43.0


From 3e047ae1443a228f585a7f272ef2836f954a6a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:47 +0000
Subject: [PATCH 13/17] fix: close double underline in tmux style format

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index d514dd0..2f9ab6d 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -550,7 +550,7 @@ class TmuxRenderer(SgrRenderer):
 
         Seqs.BOLD_DIM_OFF:   'nobold nodim',
         Seqs.ITALIC_OFF:     'noitalics',
-        Seqs.UNDERLINED_OFF: 'nounderscore',
+        Seqs.UNDERLINED_OFF: 'nounderscore nodouble-underscore',
         Seqs.BLINK_OFF:      'noblink',
         Seqs.INVERSED_OFF:   'noreverse',
         Seqs.HIDDEN_OFF:     'nohidden',
-- 
2.43.0


From 9ccc6368a4c7ddbc93243175853b0c0b31cbd6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:33 +0000
Subject: [PATCH 14/17] fix: a styled text made of a falsy value (0, False)
 lost its content

---
 pytermor/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytermor/render.py b/pytermor/render.py
index 2f9ab6d..cd671ad 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -162,7 +162,7 @@ class Text(Renderable):
 
     class _TextRun(Renderable):
         def __init__(self, string: Any = None, style: Style|str = None):
-            self._string: str = str(string) if string else ''
+            self._string: str = str(string) if string is not None else ''
             if isinstance(style, str):
                 style = Style(fg=style)
             self._style: Style|None = style
-- 
2.43.0


From 09a4d2c9deeab693a7ac3b409ec00beec278556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:08 +0000
Subject: [PATCH 15/17] fix: spreading values over a line no longer changes the
 list passed in

---
 pytermor/render.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytermor/render.py b/pytermor/render.py
index cd671ad..9180b30 100644
--- a/pytermor/render.py
+++ b/pytermor/render.py
@@ -755,6 +755,7 @@ class Styles(Registry[Style]):
 
 def distribute_padded(values: List, max_len: int, pad_before: bool = False,
                       pad_after: bool = False, ) -> str:
+    values = list(values)
     if pad_before:
         values.insert(0, '')
     if pad_after:
-- 
2.43.0


From b6cf41f4a147b8f9e59243682e37d35ef5c03c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:03 +0000
Subject: [PATCH 16/17] fix: auto float exceeded the required length when
 rounding added a digit

---
 pytermor/util/auto_float.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytermor/util/auto_float.py b/pytermor/util/auto_float.py
index 11c994f..e13dc89 100644
--- a/pytermor/util/auto_float.py
+++ b/pytermor/util/auto_float.py
@@ -155,4 +155,9 @@ def format_auto_float(value: float, req_len: int, allow_exponent_notation: bool
     # this by itself: f'{12.3:.0f}' => '12'
     dot_str = f'.{decimals_len!s}'
 
-    return f'{sign}{abs_value:{req_len}{dot_str}f}'
+    result = f'{abs_value:{req_len}{dot_str}f}'
+    if len(result) > req_len:
+        # rounding can add a digit to the integer
+        # part, e.g. 9.9996 => '10.000' => '10.00'
+        result = f'{abs_value:{req_len}.{max(0, decimals_len - 1)}f}'
+    return f'{sign}{result}'
-- 
2.43.0


From 697bc120fef01d55e4cfd4c2f8d53e04af131cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:47 +0000
Subject: [PATCH 17/17] fix: values below one lost their digits instead of
 getting a smaller unit prefix

---
 pytermor/util/prefixed_unit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytermor/util/prefixed_unit.py b/pytermor/util/prefixed_unit.py
index 553e688..95aaca1 100644
--- a/pytermor/util/prefixed_unit.py
+++ b/pytermor/util/prefixed_unit.py
@@ -114,11 +114,10 @@ class PrefixedUnitFormatter:
         unit_idx = self._prefix_zero_idx
 
         while 0 <= unit_idx < len(self._prefixes):
-            if 0.0 < abs(value) <= 1 / self._mcoef:
+            if 0.0 < abs(value) < 1.0 and unit_idx > 0 and not self._truncate_frac:
                 value *= self._mcoef
                 unit_idx -= 1
-                if abs(value) <= 1:
-                    continue
+                continue
             elif abs(value) >= self._mcoef:
                 value /= self._mcoef
                 unit_idx += 1
-- 
2.43.0

