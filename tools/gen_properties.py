#!/usr/bin/env python3
"""Writes ../properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": observe or ["stdout"], "hook_needed": None}})

NOTEST = "The suite only covers eleven hand-made segment-buffer sequences and library doctests; "

p("C01", "Every input byte becomes part of exactly one token, in order",
  "For every input, the tokens the application recognises cover all bytes from the first to the last: no byte is skipped, duplicated, reordered or left behind at the end of the input. The bytes carried by the markers produced for a token are exactly the bytes of that token.",
  ["inputs"], "all byte strings, all option combinations",
  NOTEST + "no test ever runs the tokeniser, and 'every byte string' cannot be sampled.",
  ["kolombos/byteio/parser/parser.py", "kolombos/byteio/parser/buffer.py", "kolombos/byteio/template/"],
  [("token grammar", "Parser.F_SEPARATOR"), ("residue check", "Parser.parse"), ("markers", "Template.substitute")])

p("C02", "Every byte is assigned its documented character class",
  "Tokens are classified as documented: 0x21-0x7e printable; 0x20 and 0x09-0x0d whitespace; other bytes below 0x20 and 0x7f control characters; well-formed UTF-8 (RFC 3629: shortest form, no surrogates, at most U+10FFFF) is UTF-8; every other byte from 0x80 up is binary data. ESC followed by an ECMA-48 control, nF, Fp, Fe or Fs sequence is an escape sequence of that kind (colour sequences, i.e. CSI ... m with only digits, ';' and ':' as parameters, get the SGR marker, and CSI m / CSI 0 m the reset marker), and a lone ESC is a control character.",
  ["inputs"], "all byte strings",
  NOTEST + "the token grammar has 34 groups whose priority decides the class; no test looks at it.",
  ["kolombos/byteio/parser/parser.py", "kolombos/byteio/template/registry.py", "README.md"],
  [("token grammar", "Parser.F_SEPARATOR"), ("group-to-marker table", "Parser.MGROUP_TO_TPL_MAP"), ("CSI resolver", "Parser._resolve_escape_seq_csi"), ("marker registry", "TemplateRegistry")])

p("C03", "Result does not depend on how the input is split into reads",
  "The class, marker and position given to each byte are the same for every read buffer size and every way the operating system splits the input. In particular a UTF-8 sequence or an escape sequence that is split between two reads is recognised as if it had arrived whole, and an incomplete one at the very end of the input is still displayed.",
  ["inputs", "schedules"], "all inputs, all chunkings",
  NOTEST + "needs a multi-byte token straddling a read boundary; no test drives the reader or the parser.",
  ["kolombos/byteio/parser/parser.py", "kolombos/byteio/parser/buffer.py", "kolombos/byteio/reader.py"],
  [("hold-back of incomplete tail", "Parser.parse"), ("raw buffer", "ParserBuffer.append_raw/crop_raw")],
  state=[("raw buffer", "bytes received but not yet tokenised", "ParserBuffer._raw_buffer")])

p("C04", "No input content aborts the run",
  "Whatever bytes the input contains, and whichever combination of accepted options is in force, every token can be converted to its marker without an error: all bytes up to the end (or the requested limit) are displayed.",
  ["inputs", "configurations"], "all byte strings, all option combinations",
  NOTEST + "malformed or exotic escape parameters never occur in tests.",
  ["kolombos/byteio/parser/parser.py", "kolombos/byteio/template/"],
  [("marker conversion", "Template.substitute and overrides"), ("SGR parameter analysis", "EscapeSequenceSGRTemplate.set_details_fmt_str"), ("closing sequences", "pytermor Span / _SgrPairityRegistry")])

p("C05", "A token's marker depends only on the token and the options",
  "The marker displayed for a token is a function of the token's bytes and the options alone: not of the tokens that came before it. Converting another token never changes markers that were already produced and queued for output.",
  ["histories", "inputs"], "all token histories",
  NOTEST + "markers are produced by long-lived shared objects that keep state between calls; no test makes two conversions in a row.",
  ["kolombos/byteio/template/", "kolombos/byteio/segment/buffer.py"],
  [("scratch list reset", "Template.substitute"), ("SGR details state", "EscapeSequenceSGRTemplate.set_details_fmt_str"), ("element-wise copy into the chain", "SegmentBuffer.attach")],
  state=[("scratch list", "segments of the token being converted", "Template._substituted")])

p("C06", "Binary mode shows one hex pair and one symbol for every byte",
  "In binary mode every input byte is displayed exactly once, in order, as two lower-case hex digits with the byte's value, and as exactly one symbol in the character column, whatever the marker, focus, ignore, separator and decode options are. Neither column ever drifts from the other.",
  ["inputs", "configurations"], "all byte strings, all option combinations in binary mode",
  NOTEST + "the length invariant couples every marker class with the row splitter; tests use hand-made segments only.",
  ["kolombos/byteio/template/", "kolombos/byteio/formatter/", "kolombos/byteio/segment/segment.py"],
  [("strict marker level", "Settings.effective_marker_details"), ("split", "Segment.split"), ("hex printer", "AbstractFormatter._seg_raw_to_hex"), ("symbol printer", "AbstractFormatter._seg_processed_noop")])

p("C07", "Input never reaches the terminal as raw control codes",
  "No C0 control character, ESC, DEL, C1 control (raw or UTF-8 encoded) or undecodable byte of the input is ever written to the output as such; it is always replaced by its marker. The only exceptions are, in text mode, the line feed that ends a row and the tab that follows its own marker.",
  ["inputs", "configurations"], "all byte strings, both modes, all options",
  NOTEST + "the tool is used to inspect hostile escape sequences, and no test feeds it a control byte.",
  ["kolombos/byteio/template/", "kolombos/byteio/formatter/_abstract.py"],
  [("label substitution", "Template._process / _process_byte"), ("escape details", "EscapeSequenceTemplate._fill_additional_segments"), ("UTF-8 decoding", "Utf8SequenceTemplate._process")])

p("C08", "Marker detail levels show what they promise",
  "In text mode level 0 shows only the marker symbol, level 1 adds the brief details (caret letter of a generic control character; SGR parameters, in order, joined by dots) and level 2 the full details (two hex digits of each generic control character; the escape sequence's bytes after ESC verbatim). Separators surround an escape-sequence marker at levels 1 and 2 exactly when not switched off; levels below 0 act as 0 and above 2 as 2; binary mode ignores the level and shows sequences verbatim.",
  ["inputs", "configurations"], "all control characters and escape sequences, all levels",
  NOTEST + "marker levels are never exercised.",
  ["kolombos/settings.py", "kolombos/byteio/template/"],
  [("level mapping", "Settings.effective_marker_details"), ("control details", "ControlCharGenericTemplate._fill_additional_segments"), ("escape details", "EscapeSequenceTemplate.substitute"), ("SGR brief details", "EscapeSequenceSGRTemplate._get_brief_details_processed")])

p("C09", "Focus and ignore options affect exactly their own class",
  "Ignoring a class (whether or not it is focused too) replaces each byte of that class by the dim cross mark and shows no details for it, focusing a class highlights its markers (inverse or coloured background; SGR markers in their own colours with --color-markers excepted) without changing the underlying data, and neither changes the display of any other class. Ignored line feeds still end the row in text mode.",
  ["configurations", "inputs"], "all six classes, three display states each, both modes",
  NOTEST + "no test sets a focus or ignore option.",
  ["kolombos/settings.py", "kolombos/byteio/template/", "kolombos/byteio/partial_override.py"],
  [("display mode", "Settings.get_char_class_display_mode"), ("label/style override", "PartialOverride.get"), ("newline exception", "NewlineTemplate._process_byte")])

p("C10", "Printable text and decoded UTF-8 are shown verbatim",
  "Unless ignored, printable ASCII characters are displayed as themselves in both modes, and valid UTF-8 characters are displayed as themselves in text mode and in binary mode with --decode, there right-aligned and padded with '_' to the byte length of the sequence (encoded C1 controls excepted). In binary mode without --decode each byte of a UTF-8 sequence is a placeholder.",
  ["inputs", "configurations"], "all printable bytes, all well-formed UTF-8 sequences",
  NOTEST + "no test converts text.",
  ["kolombos/byteio/template/template_printable.py", "kolombos/byteio/template/template_utf8.py"],
  [("printable", "PrintableCharTemplate._process_byte"), ("decode and fill", "Utf8SequenceTemplate._process")])

p("C11", "Buffered output is delivered in order, completely and once",
  "Whatever sequence of row or line requests drains the output buffer, each queued piece of output comes out exactly once, in the order it was queued, split only at the requested byte count. Zero-length pieces such as details and separators are never lost, including those after the last byte of the input.",
  ["histories", "inputs"], "all queue contents and all request sequences",
  "Existing tests detach from at most two hand-made segments; interleavings with zero-length pieces, splits and end of input are not reached.",
  ["kolombos/byteio/segment/buffer.py", "kolombos/byteio/segment/segment.py"],
  [("FIFO chain", "SegmentBuffer.attach / _detach"), ("line extent", "SegmentBuffer.detach_line"), ("split", "Segment.split")],
  state=[("chain", "queued segments and style marks", "SegmentBuffer._segment_chain")])

p("C12", "Each output row opens and closes its own styles",
  "Every style opened in an output row is closed before the row ends, and a marker that continues on the next row gets its style opened again there, so that every byte is displayed in the style of its own marker and no style leaks into prefixes, separators or later rows.",
  ["histories", "inputs"], "all queue contents, all row boundaries",
  "Existing tests compare chain elements with an equality that ignores the style, so no wrong style can fail them.",
  ["kolombos/byteio/segment/buffer.py", "pytermor/ansi.py"],
  [("style marks", "SegmentBuffer.attach"), ("active style list", "SegmentBuffer._detach"), ("closing sequence", "Span.closing_seq")],
  state=[("active styles", "styles open at the current row boundary", "SegmentBuffer._active_sgrs")])

p("C13", "Displayed offsets are exact and complete",
  "The offset displayed on each binary-mode row equals the number of input bytes displayed on earlier rows, and the total printed at the end equals the number of bytes displayed. Offsets are printed in full whatever their magnitude, in hexadecimal with 0x prefix by default and in decimal with --decimal-offsets, and are left out only with --no-offsets outside debug mode.",
  ["inputs", "histories"], "all input sizes and column counts",
  NOTEST + "the address column is never checked, least of all beyond a million bytes.",
  ["kolombos/byteio/formatter/binary.py", "kolombos/console.py", "kolombos/settings.py"],
  [("offset accounting", "BinaryFormatter.format"), ("offset formatting", "Console.format_prefix_with_offset / format_prefix"), ("visibility", "Settings.effective_print_offsets")],
  state=[("row offset", "bytes displayed so far", "BinaryFormatter._offset")])

p("C14", "Binary rows have the requested width and always make progress",
  "Every binary-mode row except the last displays exactly the number of bytes given by -w, or, for -w 0 or no -w, a positive multiple of four derived from the terminal width, never zero or negative, so that output always progresses; rows of more than four bytes then fit into the terminal. The last row is padded by three columns per missing byte so that the character column stays aligned.",
  ["inputs", "configurations"], "all terminal widths, all -w values, all input lengths",
  NOTEST + "no test formats a row.",
  ["kolombos/byteio/formatter/binary.py", "kolombos/common.py", "kolombos/arghelp.py"],
  [("auto width", "BinaryFormatter._compute_cols_num"), ("row request", "BinaryFormatter.format"), ("padding", "BinaryFormatter._justify_raw")])

p("C15", "Text rows correspond one to one to input lines",
  "In text mode each input line is displayed on exactly one output row that ends with exactly one line feed (added if the last line has none), numbered consecutively from 1 unless numbers are switched off. A line is displayed only once it is complete or the input has ended.",
  ["inputs", "histories"], "all inputs and chunkings",
  NOTEST + "the text formatter is never run by tests.",
  ["kolombos/byteio/formatter/text.py", "kolombos/byteio/segment/buffer.py", "kolombos/console.py"],
  [("line loop", "TextFormatter.format"), ("line extent", "SegmentBuffer.detach_line"), ("prefix", "ConsoleOutputBuffer.write_with_line_num")],
  state=[("line number", "number of the next row", "TextFormatter._line_num")])

p("C16", "Byte and line limits are exact",
  "With -B N exactly the first min(N, size) bytes are processed, with -L N exactly the bytes before the N-th line feed (all bytes if there are fewer line feeds), and with both whichever ends first, independently of the read buffer size. Without limits, or with 0, the whole input is processed.",
  ["inputs", "schedules", "configurations"], "all limits, chunk sizes and inputs",
  NOTEST + "the reader has no test; the limit may fall inside, at the end of, or beyond a chunk.",
  ["kolombos/byteio/reader.py"],
  [("line limit", "Reader.read"), ("byte limit", "Reader.read")],
  state=[("offset", "bytes delivered so far", "Reader._offset")])

p("C17", "Input is delivered in order, ended once and always closed",
  "The reader delivers consecutive chunks, each with the offset of its first byte, followed by exactly one end-of-input notification that is the last delivery. The input is opened for binary reading only (standard input when the name is missing, empty or '-'), and is closed on every way out: end of input, limit reached, Ctrl+C or error.",
  ["inputs", "fault_sequences", "schedules"], "all chunkings, all failure points",
  NOTEST + "no test opens a file, interrupts a read or injects an error.",
  ["kolombos/byteio/reader.py", "kolombos/runner/byteio.py"],
  [("read loop", "Reader.read"), ("open", "Reader._open"), ("close", "Reader.close"), ("delivery", "ByteIoRunner._process_chunk_buffered")])

p("C18", "Command-line options reach the settings they document",
  "Each documented option, short and long, sets exactly the setting it documents to the documented value, every setting that influences processing has an option or is derived, and an option that is not given leaves the documented default in force. Contradictory options (focus and ignore of one class, text with binary, decimal offsets with no offsets, file with demo) are rejected.",
  ["configurations"], "all documented options",
  NOTEST + "the argument parser is never exercised; a swapped destination is invisible to the suite.",
  ["kolombos/arghelp.py", "kolombos/settings.py", "README.md"],
  [("option table", "AppArgumentParser.__init__"), ("defaults", "Settings.__init__")])

p("C19", "Failures are reported on stderr with exit status 1, success with 0",
  "A run that completes ends with exit status 0 and a run that fails with any error ends with status 1 after the error message has been written to standard error; output produced before the failure is still written. No error is silently discarded.",
  ["fault_sequences", "inputs"], "every failure point of every mode",
  NOTEST + "no test injects a failure or checks an exit status.",
  ["kolombos/app.py", "kolombos/console.py", "kolombos/byteio/reader.py"],
  [("top-level handler", "App.run"), ("error printer", "Console.on_exception / error")])

p("C20", "Debug mode only adds diagnostics",
  "The debug level changes nothing but diagnostics: tokens, markers, data order, offsets, limits and exit status are the same at every debug level, and producing a diagnostic message neither consumes nor alters data being processed nor can make a run fail. Without -D no diagnostics are printed.",
  ["configurations", "inputs"], "all debug levels, all inputs",
  NOTEST + "debug statements sit between almost all processing steps and their arguments are evaluated even when debug is off.",
  ["kolombos/console.py", "kolombos/byteio/"],
  [("level gate", "ConsoleDebugBuffer.write"), ("previews", "Console.printd / SegmentBuffer.preview")])

p("C21", "The application has no side effects besides its output",
  "Running the application only reads its input and packaged resources and writes to standard output and standard error. It never writes, creates, renames or deletes files, starts processes, opens network connections or changes the environment.",
  ["inputs", "configurations"], "all runs",
  NOTEST + "tests do not observe system effects.",
  ["kolombos/", "pytermor/"],
  [("input opening", "Reader._open"), ("resources", "LegendRunner / DemoRunner")])

p("C22", "Auxiliary modes run as documented",
  "--legend, --version and --demo each run their own mode (in that order of precedence) instead of processing a file: the legend shows every line of the packaged legend except '#' comments, --version prints the packaged version of the application and of the library, and the demo shows the packaged sample in binary mode, decoded and 16 columns wide unless those options are given explicitly. Everything else processes the input in the selected mode, text by default.",
  ["configurations"], "all mode combinations",
  NOTEST + "runners are never executed.",
  ["kolombos/runner/", "kolombos/version.py", "kolombos/settings.py", "kolombos/byteio/formatter/factory.py", "setup.cfg"],
  [("dispatch", "RunnerFactory.create"), ("formatter choice", "FormatterFactory.create / Settings.read_mode"), ("demo presets", "DemoRunner.run")])

p("C23", "The closing sequence undoes exactly what the opening one set",
  "For every opening style sequence the automatically composed closing sequence resets each attribute the opening one sets, using the standard counterpart (22 bold/dim, 23 italic, 24 single/double underline, 25 blink, 27 inverse, 28 hidden, 29 crossed, 39/49 every foreground/background colour including extended ones, 55 overline), and no others. Operands of extended colours are never mistaken for attributes, and composing it leaves the opening sequence unchanged.",
  ["inputs"], "all parameter lists",
  "Doctests show four spans; the pairing of all codes and the handling of arbitrary parameter lists is not covered.",
  ["pytermor/ansi.py"],
  [("pairing table", "_SgrPairityRegistry"), ("composition", "_SgrPairityRegistry.get_closing_seq")])

p("C24", "Preset registries agree with the standard and with each other",
  "Every named code, sequence, span and 16-colour preset denotes the standard SGR parameter of its name (ECMA-48 and the common bright-colour extension), and presets of one name in different registries denote the same parameter. The 256-colour presets cover indexes 16-255 exactly once with the standard xterm palette values, and tmux names match the attribute they translate.",
  ["programs"], "all registry entries",
  "Doctests touch a handful of the several hundred entries.",
  ["pytermor/ansi.py", "pytermor/color.py", "pytermor/render.py"],
  [("codes", "IntCodes"), ("sequences", "Seqs"), ("spans", "Spans"), ("colours", "Colors"), ("tmux map", "TmuxRenderer.SGR_TO_TMUX_MAP")])

p("C25", "Using presets never modifies them",
  "Sequences, spans and colours are values: combining, closing, rendering or comparing them never changes the operands, so shared presets keep their meaning for the life of the process.",
  ["histories"], "all sequences of public operations",
  "Doctests use each preset once; damage to a shared preset shows only in later operations.",
  ["pytermor/ansi.py", "pytermor/color.py", "pytermor/render.py"],
  [("copying", "SequenceSGR.__add__ / __init__ / get_closing_seq"), ("colour conversion", "Color.to_sgr")])

p("C26", "Style sequences assemble to well-formed SGR codes",
  "A sequence with parameters p1..pn assembles to ESC [ p1;...;pn m, an empty one to the empty string and a plain reset to ESC [ m; combining sequences concatenates their parameters in order. Colour helpers reject values outside 0-255 and produce 38;5;n / 48;5;n and 38;2;r;g;b / 48;2;r;g;b with the channels in that order.",
  ["inputs"], "all parameter lists",
  "Doctests show a few constants only.",
  ["pytermor/ansi.py", "pytermor/color.py"],
  [("assemble", "SequenceSGR.assemble"), ("combine", "SequenceSGR.__add__/__radd__/__iadd__"), ("extended colours", "SequenceSGR.init_color_indexed / init_color_rgb, ColorRGB.to_sgr")])

p("C27", "Renderers keep the text and obey style suppression",
  "Every renderer outputs the complete text in its original order, adding only style codes around it, and each style attribute and colour of the style is translated to the corresponding code and closed again. With styles suppressed (None), no style code is emitted by the terminal renderers at all; with styles forced they are always emitted; otherwise only when output is a terminal; and in a compatibility mode no colour code outside that mode is emitted.",
  ["inputs", "configurations"], "all texts, styles and renderer set-ups",
  "Doctests render one word in one style per renderer.",
  ["pytermor/render.py"],
  [("gate", "SgrRenderer.is_sgr_usage_allowed"), ("attributes", "SgrRenderer._render_attributes"), ("colour downgrade", "SgrRenderer._render_color"), ("line split", "SgrRenderer.render / TmuxRenderer.render")])

p("C28", "Style-aware padding counts visible characters only",
  "Left, right and centre justification of a string containing style sequences yields the original string plus exactly as many fill characters as its visible length is short of the width (none if it is not), on the proper side(s), an odd centre remainder going to the left. Style sequences never count as width and are never altered.",
  ["inputs"], "all strings, widths and fill characters",
  "No test or doctest covers these helpers.",
  ["pytermor/util/stdlib_ext.py", "pytermor/util/string_filter.py"],
  [("padding", "ljust_sgr / rjust_sgr / center_sgr"), ("visible length", "ReplaceSGR")])

p("C29", "Closest-colour results are never stale",
  "A closest-colour lookup returns what a fresh search over all colours registered so far would return: earlier lookups never change a later answer, a newly registered colour is taken into account at once, and lookups never register colours.",
  ["histories"], "all interleavings of registration and lookup",
  "The only doctest performs a single lookup.",
  ["pytermor/color.py"],
  [("cache", "Approximator.find_closest"), ("invalidation", "Approximator.add_to_map")],
  state=[("lookup table", "registered colours", "Approximator._lookup_table"), ("cache", "colours plus earlier answers", "Approximator._approximation_cache")])

p("C30", "String filters touch exactly what they name",
  "The SGR filter replaces every complete SGR sequence (ESC [, digits and semicolons, m) and nothing else; the non-ASCII filter replaces exactly bytes 0x80-0xff; the whitespace filter replaces exactly whitespace characters and keeps line feeds; filters are applied in the order given.",
  ["inputs"], "all strings",
  "Doctests show one or two strings per filter.",
  ["pytermor/util/string_filter.py"],
  [("patterns", "ReplaceSGR, ReplaceCSI, ReplaceNonAsciiBytes, VisualuzeWhitespace"), ("chain", "apply_filters")])

p("C31", "Formatted numbers have exactly the requested width and denote the number",
  "For every decimal number and every width of at least one: format_auto_float(value, width) is exactly width characters long; ValueError is raised exactly if exponents are not allowed and the integer part (with the sign) has more digits than the width. The text is made of '!' only if not even the power of ten ('eN') fits. Otherwise it shows a number that differs from the value by at most half a unit of the last digit shown (less than one unit where rounding would need a digit more than there is room for; no digits but the power of ten where only that fits); a minus sign exactly for negative values; for a non-zero value the width is filled with digits but for one blank at most; exponents are used exactly for magnitudes below 0.01 and those whose integer part does not fit. format_si_metric and format_si_binary show 'number prefix+unit' with a number of at most 4 (5) characters and the prefix for which it is at least 1 and below 1000 (1024) before rounding (bytes without a prefix are cut to whole units, and there are no prefixes below one for them), equally accurate; the unit given is the one shown.",
  ["inputs"], "all decimal numbers (the check: n/10^k, n < 10^12, k <= 6; thorough 10^14 and 10), all widths (the check: 1-8, thorough 1-12)",
  "Doctests sample 15 numbers; carries of the rounding are not among them.",
  ["pytermor/util/auto_float.py", "pytermor/util/prefixed_unit.py"],
  [("width and digits", "format_auto_float"), ("prefix", "PrefixedUnitFormatter.format"), ("presets", "_formatter_si_metric, _formatter_si_binary")], observe=["return value"])

p("C32", "Time deltas fit the requested width and name the right quantity",
  "For every whole number of seconds: format_time_delta(seconds, max_len) uses the longest registered formatter not longer than max_len (the longest one if max_len is omitted; ValueError if max_len is below 3, the shortest), so the text is never longer than max_len. The quantities it names add up to at most the magnitude of the interval and to more than the magnitude less one of the smallest unit named (rounding down; a month is 30 days, a year 12 months). The minus sign is shown exactly for negative intervals, and only by the formatter that supports them (10 characters; the others show the magnitude). A formatter shows its overflow text exactly when the interval reaches one more than the largest unit's limit (99 days for 3 characters, 99 years for 4 and 6, 999 years for 10). With always_max_len the text is padded on the left to exactly the formatter's length.",
  ["inputs"], "all whole numbers of seconds (the check bounds the magnitude by 10^15), all widths",
  "Doctests sample four durations.",
  ["pytermor/util/time_delta.py"],
  [("formatter", "TimeDeltaFormatter.format_raw"), ("selection", "_TimeDeltaFormatterRegistry.find_matching"), ("width", "TimeDeltaFormatter._compute_max_len"), ("presets", "registry.register(...)")], observe=["return value"])

p("C33", "The closest colour is the nearest by sRGB distance",
  "For every colour value, the closest-colour search of each indexed palette returns a registered colour whose sum of squared red, green and blue differences to the value is minimal (any of them in case of a tie); several candidates asked for are distinct registered colours, ordered by distance, none left out being nearer than the last; the value of a registered colour finds a colour with exactly this value.",
  ["inputs"], "all 2^24 colour values, both palettes",
  "One doctest value.",
  ["pytermor/color.py"],
  [("search", "Approximator.approximate"), ("lookup", "_ColorIndexed.find_closest"), ("channels", "Color.hex_value_to_rgb_channels")], observe=["return value"])

p("C34", "Columns line up on screen for wide characters",
  "Decoded double-width or combining characters keep the binary-mode character column aligned with the terminal's display cells.",
  ["inputs", "configurations"], "all Unicode characters, all terminals",
  "No test looks at display width.",
  ["kolombos/byteio/template/template_utf8.py"],
  [("fill", "Utf8SequenceTemplate._process")])

p("C35", "Styles and colours keep exactly what they were constructed with",
  "A style has exactly the attributes and colours given to its constructor: its own argument wins (False counts as given), one left out is the parent's (foreground and background too, through any number of generations), else unset; the parent, its colours and the presets stay as they were. A colour argument may be a colour object (kept as it is), a preset name in any letter case (KeyError for an unknown name) or an integer (the true colour of this value). flip() swaps exactly foreground and background. autopick_fg() changes the foreground only: 4% grey if the brightness (the greatest channel over 255) of the background is at least 0.45, else 80% grey, and nothing without a background. The text representation of a style lists exactly the colours (six hexadecimal digits, or the stated text if unset) and the attributes that are set. True colours are equal iff their values are; a value and its red, green and blue channels convert into each other (TypeError for other than integers).",
  ["inputs", "configurations"], "all combinations of own and inherited attributes, all preset names, all 2^24 integer colours",
  "Doctests construct a handful of styles; none combines inheritance with False or colours.",
  ["pytermor/render.py", "pytermor/color.py", "pytermor/common.py"],
  [("construction", "Style.__init__, Style._clone_from"), ("colour arguments", "Style._resolve_color, Registry.resolve"), ("changes", "Style.flip, Style.autopick_fg, Style.fg/bg setters"), ("representation", "Style.__repr__, Color.format_value"), ("brightness", "Color.hex_value_to_hsv_channels")], observe=["attributes", "return value"])

p("C36", "Values spread over a line fill it exactly, in order and evenly",
  "distribute_padded(values, max_len, pad_before, pad_after), for at least one value: the line is exactly max_len characters long and consists of the values, complete and in their order, with blanks between them (and in front of the first / behind the last if requested, else none there; a single value without pad_after is followed by the remaining blanks); no gap is empty and the gaps differ by at most one blank. ValueError is raised iff there is not room for one blank per gap. The list passed in is left as it was.",
  ["inputs"], "all lists of at least one non-empty text, all line lengths (the check bounds the number of values)",
  "No test covers it.",
  ["pytermor/render.py"],
  [("spreading", "distribute_padded")], observe=["return value"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
