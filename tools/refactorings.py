#!/usr/bin/env python3
"""Behaviour-preserving edits: every check has to stay quiet on each of them.

usage: refactorings.py [id...] [-c C01,C02]      runs the checks (default: all that exist) on a scratch copy per edit
"""
import os, shutil, subprocess, sys, tempfile

K, PT = 'kolombos/', 'pytermor/'
R = {
'reader_loop': [(K + 'byteio/reader.py', "            while raw_input := self._io.read(self._chunk_size):\n", "            while True:\n                raw_input = self._io.read(self._chunk_size)\n                if len(raw_input) == 0:\n                    break\n")],
'reader_limit_helper': [(K + 'byteio/reader.py', "                if (max_bytes and self._offset >= max_bytes) or \\n                   (max_lines and lines >= max_lines):\n                    break\n", "                if self._limit_reached(max_bytes, self._offset) or self._limit_reached(max_lines, lines):\n                    break\n"),
                        (K + 'byteio/reader.py', "    def close(self):\n", "    @staticmethod\n    def _limit_reached(limit, value) -> bool:\n        return bool(limit) and value >= limit\n\n    def close(self):\n")],
'reader_with_count': [(K + 'byteio/reader.py', """                    for line_break in re.finditer(b'\\x0a', raw_input):
                        lines += 1
                        if lines >= max_lines:
                            raw_input = raw_input[:line_break.end()-1]
""", """                    pos = -1
                    while (pos := raw_input.find(b'\\n', pos + 1)) >= 0:
                        lines = lines + 1
                        if not lines < max_lines:
                            raw_input = raw_input[:pos]
""")],
'settings_priority': [(K + 'settings.py', """        if getattr(self, attr_ignored):
            return DisplayMode.IGNORED
        if getattr(self, attr_focused):
            return DisplayMode.FOCUSED
        return DisplayMode.DEFAULT
""", """        ignored, focused = getattr(self, attr_ignored), getattr(self, attr_focused)
        if not ignored:
            return DisplayMode.FOCUSED if focused else DisplayMode.DEFAULT
        return DisplayMode.IGNORED
""")],
'marker_table': [(K + 'settings.py', """        if self.marker <= 0:
            return MarkerDetailsEnum.NO_DETAILS
        if self.marker == 1:
            return MarkerDetailsEnum.BRIEF_DETAILS
        return MarkerDetailsEnum.FULL_DETAILS
""", """        level = min(max(self.marker, 0), 2)
        return [MarkerDetailsEnum.NO_DETAILS, MarkerDetailsEnum.BRIEF_DETAILS, MarkerDetailsEnum.FULL_DETAILS][level]
""")],
'read_mode_ternary': [(K + 'settings.py', """        if self.binary:
            return ReadMode.BINARY
        elif self.text:
            return ReadMode.TEXT
        # auto
        return self._default_read_mode
""", """        return ReadMode.BINARY if self.binary else (ReadMode.TEXT if self.text else self._default_read_mode)
""")],
'format_join': [(K + 'byteio/segment/buffer.py', """        output = ''
        for cur_element in detached:
            if isinstance(cur_element, Segment):
                output += printer.print(cur_element)

            elif isinstance(cur_element, SequenceRef):  # StartSequenceRef | OneUseSequenceRef
                output += self._append_sgr_to_output(printer, cur_element.ref.assemble())

        # @TODO optimize sgrs: {RED}A{COLOR_OFF}{RED}A{COLOR_OFF}... -> {RED}AA{COLOR_OFF}
        return output
""", """        def as_text(el: Chainable) -> str:
            if isinstance(el, Segment):
                return printer.print(el)
            return self._append_sgr_to_output(printer, el.ref.assemble())

        return ''.join(map(as_text, filter(lambda el: isinstance(el, (Segment, SequenceRef)), detached)))
""")],
'data_len_loop': [(K + 'byteio/segment/buffer.py', "        return sum([el.data_len for el in self._segment_chain])\n", "        total = 0\n        for el in self._segment_chain:\n            total += el.data_len\n        return total\n")],
'detach_popleft_first': [(K + 'byteio/segment/buffer.py', """                if cur_element.data_len <= req_bytes:
                    output.append(cur_element)
                    req_bytes -= cur_element.data_len
                    self._segment_chain.popleft()
                    continue

                else:
                    cur_element_left = cur_element.split(req_bytes)
                    output.append(cur_element_left)
                    break
""", """                if cur_element.data_len > req_bytes:
                    output.append(cur_element.split(req_bytes))
                    break

                self._segment_chain.popleft()
                req_bytes = req_bytes - cur_element.data_len
                output.append(cur_element)
                continue
""")],
'attach_appends': [(K + 'byteio/segment/buffer.py', """            self._segment_chain.extend([
                StartSequenceRef(f.opening_seq),
                segment,
                StopSequenceRef(f.opening_seq),
                OneUseSequenceRef(f.closing_seq)
            ])
""", """            opening, closing = f.opening_seq, f.closing_seq
            self._segment_chain.append(StartSequenceRef(opening))
            self._segment_chain.append(segment)
            self._segment_chain.append(StopSequenceRef(opening))
            self._segment_chain.append(OneUseSequenceRef(closing))
""")],
'detach_line_any': [(K + 'byteio/segment/buffer.py', """        avail_bytes = 0
        has_newline = False
        for el in self._segment_chain:
            avail_bytes += el.data_len
            if el.is_newline:
                has_newline = True
                break
""", """        avail_bytes, has_newline, idx = 0, False, 0
        chain = list(self._segment_chain)
        while idx < len(chain) and not has_newline:
            avail_bytes += chain[idx].data_len
            has_newline = chain[idx].is_newline
            idx += 1
""")],
'binfmt_row_helper': [(K + 'byteio/formatter/binary.py', """            self._output_buffer.write_with_offset(
                final_raw_row +
                self._justify_raw(cur_cols - data_len) +
                self.PADDING_SECTION +
                separator +
                final_proc_row, offset=self._offset, end='\\n')
""", """            row = self._make_row(final_raw_row, final_proc_row, cur_cols - data_len, separator)
            self._output_buffer.write_with_offset(row, self._offset)
"""), (K + 'byteio/formatter/binary.py', "    def _justify_raw(self", "    def _make_row(self, left: str, right: str, missing: int, separator: str) -> str:\n        return f'{left}{self._justify_raw(missing)}{self.PADDING_SECTION}{separator}{right}'\n\n    def _justify_raw(self")],
'cols_floordiv': [(K + 'byteio/formatter/binary.py', "        chunk_fit = max(1, floor(available_total / chunk_len))\n", "        chunk_fit = available_total // chunk_len\n        if chunk_fit < 1:\n            chunk_fit = 1\n")],
'hex_method': [(K + 'byteio/formatter/_abstract.py', "        return ''.join([f' {b:02x}' for b in seg.raw])\n", "        result = ''\n        for b in seg.raw:\n            result += ' ' + format(b, '02x')\n        return result\n")],
'hex_builtin': [(K + 'byteio/formatter/_abstract.py', "        return ''.join([f' {b:02x}' for b in seg.raw])\n", "        return ' ' + seg.raw.hex(' ') if seg.raw else ''\n")],
'txtfmt_condition': [(K + 'byteio/formatter/text.py', """            if not ReplaceSGR().apply(final_proc_line).endswith('\\n'):
                self._output_buffer.write('', end='\\n')
""", """            visible = ReplaceSGR('').apply(final_proc_line)
            complete = len(visible) > 0 and visible[-1] == '\\n'
            if not complete:
                self._output_buffer.write('\\n', end='')
""")],
'console_line_prefix': [(K + 'console.py', """        if SettingsManager.app_settings.debug:
            prefix = Console.format_prefix(str(line_num), fmt_)
        elif SettingsManager.app_settings.no_line_numbers:
            prefix = ''
        else:
            prefix = fmt_(f'{line_num:2d}') + Console.get_separator()
""", """        app_settings = SettingsManager.app_settings
        prefix = ''
        if app_settings.debug:
            prefix = Console.format_prefix(f'{line_num}', fmt_)
        elif not app_settings.no_line_numbers:
            prefix = fmt_(str(line_num).rjust(2)) + Console.get_separator()
""")],
'offset_width': [(K + 'console.py', "            offset_str = f'0x{offset:0{max(4,ceil(len(str(offset))/2)*2)}x}'\n", "            digits = len(str(offset))\n            digits += digits % 2\n            offset_str = '0x' + format(offset, 'x').zfill(max(4, digits))\n")],
'print_sys_write': [(K + 'console.py', "        Console.print(self._buf, end='')\n        self._buf = ''\n", "        pending, self._buf = self._buf, ''\n        Console.print(pending, end='')\n")],
'parser_min_group': [(K + 'byteio/parser/parser.py', """        mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
        primary_mgroup = min(mgroups.keys())
        raw = cast(bytes, m.group(primary_mgroup+1))
""", """        primary_mgroup = next(idx for idx, grp in enumerate(m.groups()) if grp)
        raw = m.groups()[primary_mgroup]
""")],
'parser_isinstance': [(K + 'byteio/parser/parser.py', """        tpl = self.MGROUP_TO_TPL_MAP[mgroup]
        if isinstance(tpl, Template):
            return tpl
        elif isinstance(tpl, Callable):
            return tpl(m)
""", """        tpl = self.MGROUP_TO_TPL_MAP.get(mgroup)
        if callable(tpl):
            return tpl(m)
        if isinstance(tpl, Template):
            return tpl
""")],
'parser_int_ranges': [(K + 'byteio/parser/parser.py', "            b'(\\x00+)|'                            # [23]", "            b'([\\x00]+)|'                          # [23]"), (K + 'byteio/parser/parser.py', "([\\x21-\\x7e]+)',", "([!-~]+)',")],
'template_process_loop': [(K + 'byteio/template/template.py', "        return ''.join(self._process_byte(b) for b in raw)\n", "        processed = []\n        for b in raw:\n            processed.append(self._process_byte(b))\n        return ''.join(processed)\n")],
'template_fresh_list': [(K + 'byteio/template/template.py', """        self._substituted.insert(0, primary_seg)
        return self._substituted

    @property
    def char_class""", """        return [primary_seg] + self._substituted

    @property
    def char_class""")],
'ctl_brief_computed': [(K + 'byteio/template/template_control.py', """            if b not in self._brief_label_map.keys():
                raise KeyError(f'No brief label defined for byte 0x{b:02x}')
            self._substituted.append(self._create_details_segment(b'', self._brief_label_map[b]))
""", """            self._substituted.append(self._create_details_segment(b'', chr(0x40 + b)))
""")],
'ctl_early_merge': [(K + 'byteio/template/template_control.py', """        for label_raw in raw:
            label_processed = self._process_byte(label_raw)
            self._substituted.append(self._create_primary_segment(
                self._opening_seq_stack.get(self._display_mode, self._read_mode),
                bytes([label_raw]),
                label_processed,
            ))
            self._fill_additional_segments(label_raw)
""", """        opening_seq = self._opening_seq_stack.get(self._display_mode, self._read_mode)
        for idx in range(len(raw)):
            segment = self._create_primary_segment(opening_seq, raw[idx:idx + 1], self._process_byte(raw[idx]))
            self._substituted.append(segment)
            self._fill_additional_segments(raw[idx])
""")],
'esc_sep_helper': [(K + 'byteio/template/template_escape.py', """        if (self._read_mode != ReadMode.BINARY and
            not SettingsManager.app_settings.no_separators and (
                self._marker_details is MarkerDetailsEnum.BRIEF_DETAILS or
                self._marker_details is MarkerDetailsEnum.FULL_DETAILS
            )):
            self._wrap_in_separators()
""", """        with_details = self._marker_details in (MarkerDetailsEnum.BRIEF_DETAILS, MarkerDetailsEnum.FULL_DETAILS)
        if not self._read_mode.is_binary and with_details and not SettingsManager.app_settings.no_separators:
            self.wrap_in_separators(self._substituted)
""")],
'sgr_index_loop': [(K + 'byteio/template/template_escape_sgr.py', "                    pcodes_allowed.extend([pcode, *[pcodes.pop(0) for _ in range(4)]])\n", "                    pcodes_allowed += [pcode] + pcodes[:4]\n                    del pcodes[:4]\n"),
                   (K + 'byteio/template/template_escape_sgr.py', "        while len(pcodes):  #", "        while pcodes:  #")],
'utf8_ternary': [(K + 'byteio/template/template_utf8.py', """                if len(decoded) < len(raw):
                    decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
                elif len(decoded) > len(raw):
                    decoded = decoded[:len(raw)]
""", """                missing = len(raw) - len(decoded)
                decoded = self.DECODED_LEFT_FILL_CHAR * missing + decoded if missing > 0 else decoded[:len(raw)]
""")],
'newline_parts': [(K + 'byteio/template/template_newline.py', """            if self._display_mode.is_ignored:
                return f'{default}\\n'   # line breaks must be printed even if char class is ignored

            return f'{default}{Seqs.RESET}\\n'  # prevent colored bg overlapping between lines
""", """            suffix = '' if self._display_mode.is_ignored else str(Seqs.RESET)
            return default + suffix + '\\n'
""")],
'pov_next': [(K + 'byteio/partial_override.py', """        if self._override:
            for key in keys:
                if key in self._override.keys():
                    return self._override[key]
        return self._default
""", """        overrides = self._override or {}
        return next((overrides[key] for key in keys if key in overrides), self._default)
""")],
'split_slices': [(K + 'byteio/segment/segment.py', """        left = Segment(self._opening_seq, self._type_label, self._raw[:num_bytes], self._processed[:num_bytes])

        self._raw = self._raw[num_bytes:]
        self._processed = self._processed[num_bytes:]
        return left
""", """        raw_left, self._raw = self._raw[:num_bytes], self._raw[num_bytes:]
        processed_left, self._processed = self._processed[:num_bytes], self._processed[num_bytes:]
        return Segment(self._opening_seq, self._type_label, raw_left, processed_left)
""")],
'factory_map': [(K + 'runner/factory.py', """        if SettingsManager.app_settings.legend:
            return LegendRunner()
        elif SettingsManager.app_settings.version:
            return VersionRunner()
        elif SettingsManager.app_settings.demo:
            return DemoRunner()
        return ByteIoRunner()
""", """        app_settings = SettingsManager.app_settings
        for enabled, runner_class in (
            (app_settings.legend, LegendRunner),
            (app_settings.version, VersionRunner),
            (app_settings.demo, DemoRunner),
        ):
            if enabled:
                return runner_class()
        return ByteIoRunner()
""")],
'app_exit_code': [(K + 'app.py', """        try:
            self._parse_args()  # help processing is handled by argparse
            (RunnerFactory.create()).run()
        except Exception as e:
            Console.on_exception(e)
            self._exit(1)
        self._exit(0)
""", """        exit_code = 0
        try:
            self._parse_args()  # help processing is handled by argparse
            runner = RunnerFactory.create()
            runner.run()
        except Exception as e:
            Console.on_exception(e)
            exit_code = 1
        self._exit(exit_code)
""")],
'nonneg_lambda': [(K + 'arghelp.py', """    result = int(value)
    if result < 0:
        raise ArgumentTypeError(f'expected non-negative integer, got {value}')
    return result
""", """    if (result := int(value)) >= 0:
        return result
    raise ArgumentTypeError('expected non-negative integer, got ' + value)
""")],
'demo_path_str': [(K + 'runner/demo.py', "            if aps.decode is None:\n                aps.decode = True\n            if aps.columns is None:\n                aps.columns = 16  #", "            aps.decode = True if aps.decode is None else aps.decode\n            if aps.columns is None:\n                aps.columns = 16  #")],
'filter_loop': [(PT + 'util/string_filter.py', """    filters = map(lambda t: t() if isinstance(t, type) else t, args)
    return reduce(lambda s_, f: f.apply(s_), filters, s)
""", """    result = s
    for arg in args:
        f = arg() if isinstance(arg, type) else arg
        result = f.apply(result)
    return result
""")],
'filter_classes': [(PT + 'util/string_filter.py', "r'(\\x1b)(\\[)(([0-9;])*)(m)'", "r'(\\x1b)(\\[)(([\\d;])*)(m)'".replace('\\d', '0-9'))],
'ljust_str': [(PT + 'util/stdlib_ext.py', "    return s + fillchar * max(0, width - len(sanitized))\n", "    missing = width - len(sanitized)\n    if missing <= 0:\n        return s\n    return s + missing * fillchar\n")],
'approx_min': [(PT + 'color.py', """        if len(self._approximation_cache) == 0:  # there was on-addition cache reset
            self._approximation_cache = self._lookup_table.copy()

        if len(self._approximation_cache) == 0:
""", """        if not self._approximation_cache:  # there was on-addition cache reset
            self._approximation_cache = dict(self._lookup_table)

        if not self._lookup_table:
"""), (PT + 'color.py', "        sorted_result = sorted(result, key=lambda r: r[1])\n        return [c for c, _ in sorted_result[:max_results]]\n", "        result.sort(key=lambda pair: pair[1])\n        return [pair[0] for pair in result][:max_results]\n")],
'text_join_loop': [(PT + 'render.py', "        return ''.join(run._render_using(renderer) for run in self._runs)\n", "        result = ''\n        for run in self._runs:\n            result += run._render_using(renderer)\n        return result\n")],
'auto_float_ternary': [(PT + 'util/auto_float.py', "    sign = ''\n    if value < 0:\n        sign = '-'\n        req_len -= 1\n", "    sign = '-' if value < 0 else ''\n    req_len = req_len - len(sign)\n"),
                       (PT + 'util/auto_float.py', "            integer_str = f'{trunc(abs_value):{req_len}d}'\n", "            integer_str = str(int(abs_value)).rjust(req_len)\n"),
                       (PT + 'util/auto_float.py', "    required_exponent = (\n        (exp_threshold_left is not None and exponent < exp_threshold_left) or\n        exponent > exp_threshold_right\n    )\n", "    too_small = exp_threshold_left is not None and exponent < exp_threshold_left\n    too_big = exponent > exp_threshold_right\n    required_exponent = too_small or too_big\n")],
'auto_float_helper': [(PT + 'util/auto_float.py', "    exponent = floor(log10(abs_value))\n", "    exponent = _exponent_of(abs_value)\n"),
                      (PT + 'util/auto_float.py', "def format_auto_float(", "def _exponent_of(num: float) -> int:\n    return floor(log10(num))\n\n\ndef format_auto_float("),
                      (PT + 'util/auto_float.py', "    decimals_with_point_len = req_len - integer_len\n    decimals_len = decimals_with_point_len - 1\n", "    decimals_len = req_len - integer_len - 1\n"),
                      (PT + 'util/auto_float.py', "    dot_str = f'.{decimals_len!s}'\n\n    result = f'{abs_value:{req_len}{dot_str}f}'\n", "    result = format(abs_value, f'{req_len}.{decimals_len}f')\n")],
'prefixed_scale_first': [(PT + 'util/prefixed_unit.py', "                value *= self._mcoef\n                unit_idx -= 1\n                continue\n            elif abs(value) >= self._mcoef:\n", "                value, unit_idx = value * self._mcoef, unit_idx - 1\n                continue\n\n            if not abs(value) < self._mcoef:\n"),
                         (PT + 'util/prefixed_unit.py', "            unit_full = (self._prefixes[unit_idx] or '') + \\n                        (unit or self._unit)\n", "            prefix = self._prefixes[unit_idx]\n            unit_full = (unit or self._unit) if prefix is None else prefix + (unit or self._unit)\n")],
'prefixed_join': [(PT + 'util/prefixed_unit.py', "            return f'{num_str.strip()}{self._unit_separator}{unit_full.strip()}'\n\n        # no", "            return self._join(num_str, unit_full)\n\n        # no"),
                  (PT + 'util/prefixed_unit.py', "    def format(self, value: float, unit: str = None) -> str:\n", "    def _join(self, num: str, unit: str) -> str:\n        return self._unit_separator.join([num.strip(), unit.strip()])\n\n    def format(self, value: float, unit: str = None) -> str:\n")],
'style_vars': [(PT + 'render.py', "        for attr in list(self.__dict__.keys()) + ['_fg', '_bg']:\n            inherit_val = getattr(inherit, attr)\n            if getattr(self, attr) is None and inherit_val is not None:\n                setattr(self, attr, inherit_val)\n", "        for attr in [*vars(self), '_fg', '_bg']:\n            if getattr(self, attr) is not None:\n                continue\n            setattr(self, attr, getattr(inherit, attr))\n"),
               (PT + 'render.py', "        if v >= .45:\n            self._fg = Colors.RGB_GREY_4\n        else:\n            self._fg = Colors.RGB_GREY_80\n        return self\n", "        self._fg = Colors.RGB_GREY_80 if v < .45 else Colors.RGB_GREY_4\n        return self\n")],
'style_resolve': [(PT + 'render.py', "        if isinstance(arg, Color):\n            return arg\n\n        if isinstance(arg, int):\n            return ColorRGB(arg)\n\n        if isinstance(arg, str):\n", "        if arg is None:\n            return None if nullable else NOOP_COLOR\n        if isinstance(arg, Color):\n            return arg\n        if isinstance(arg, int):\n            return ColorRGB(arg)\n        if isinstance(arg, str):\n"),
                  (PT + 'render.py', "        self._fg, self._bg = self._bg, self._fg\n        return self\n", "        previous_fg = self._fg\n        self._fg = self._bg\n        self._bg = previous_fg\n        return self\n")],
'distribute_list': [(PT + 'render.py', "    values = list(values)\n    if pad_before:\n        values.insert(0, '')\n    if pad_after:\n        values.append('')\n", "    values = ([''] if pad_before else []) + list(values) + ([''] if pad_after else [])\n"),
                    (PT + 'render.py', "    result = ''\n    for value_idx, value in enumerate(values):\n        gape_len = spaces_amount // (gapes_amount or 1)  # for last value\n        result += value + ' ' * gape_len\n        gapes_amount -= 1\n        spaces_amount -= gape_len\n\n    return result", "    parts = []\n    while len(parts) < len(values):\n        gape_len = spaces_amount // (gapes_amount or 1)  # for last value\n        parts.append(values[len(parts)] + gape_len * ' ')\n        gapes_amount, spaces_amount = gapes_amount - 1, spaces_amount - gape_len\n\n    return ''.join(parts)")],
'detach_next_newline': [(K + 'byteio/segment/buffer.py', '''        avail_bytes = 0
        has_newline = False
        for el in self._segment_chain:
            avail_bytes += el.data_len
            if el.is_newline:
                has_newline = True
                break
''', '''        elements = list(self._segment_chain)
        newline_idx = next((idx for idx, el in enumerate(elements) if el.is_newline), None)
        has_newline = newline_idx is not None
        if has_newline:
            elements = elements[:newline_idx + 1]
        avail_bytes = sum(el.data_len for el in elements)
''')],
'detach_take_helper': [(K + 'byteio/segment/buffer.py', '''                if cur_element.data_len <= req_bytes:
                    output.append(cur_element)
                    req_bytes -= cur_element.data_len
                    self._segment_chain.popleft()
                    continue

                else:
                    cur_element_left = cur_element.split(req_bytes)
                    output.append(cur_element_left)
                    break
''', '''                if cur_element.data_len > req_bytes:
                    output.append(cur_element.split(req_bytes))
                    break

                output.append(cur_element)
                req_bytes -= cur_element.data_len
'''), (K + 'byteio/segment/buffer.py', '''        output = []
        output.extend([OneUseSequenceRef(sgr) for sgr in self._active_sgrs])
''', '''        output = [*map(OneUseSequenceRef, self._active_sgrs)]
'''), (K + 'byteio/segment/buffer.py', '''        self._last_detached_data_len = sum([el.data_len for el in output])
''', '''        detached_len = 0
        for el in output:
            detached_len += el.data_len
        self._last_detached_data_len = detached_len
''')],
'detach_early_raise': [(K + 'byteio/segment/buffer.py', '''        if self.data_len >= req_bytes or force:
            detached = self._detach(req_bytes)
            if len(detached) == 0:
                self._debug_buffer.write(1, 'Responsing with EOF')
                self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
                raise EOFError

            return self._format_multiple(detached, printers)

        self._debug_buffer.write(1, 'Responsing with WaitRequest')
        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
        raise WaitRequest

    def detach_line''', '''        if not force and self.data_len < req_bytes:
            self._fail('WaitRequest', WaitRequest)

        detached = self._detach(req_bytes)
        if not detached:
            self._fail('EOF', EOFError)
        return self._format_multiple(detached, printers)

    def _fail(self, name: str, exc_type: type):
        self._debug_buffer.write(1, f'Responsing with {name}')
        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self)}')
        raise exc_type()

    def detach_line''')],
'text_next_line': [(K + 'byteio/formatter/text.py', '''        while True:
            try:
                self._debug_buffer.write(1, 'Requested line')
                force = self._parser_buffer.closed
                result = self._segment_buffer.detach_line(force, [
                    self._debug_sgr_seg_printer,
                    self._debug_raw_seg_printer,
                    self._debug_proc_seg_printer,
                    self._proc_seg_printer,
                ])
            except WaitRequest:
                break
            except EOFError:
                break

            debug_sgr_line,''', '''        printers = [self._debug_sgr_seg_printer, self._debug_raw_seg_printer, self._debug_proc_seg_printer, self._proc_seg_printer]
        while (result := self._next_line(printers)) is not None:
            debug_sgr_line,'''), (K + 'byteio/formatter/text.py', '''    def format(self):
''', '''    def _next_line(self, printers):
        self._debug_buffer.write(1, 'Requested line')
        try:
            return self._segment_buffer.detach_line(self._parser_buffer.closed, printers)
        except (WaitRequest, EOFError):
            return None

    def format(self):
''')],
'binary_rows_generator': [(K + 'byteio/formatter/binary.py', '''            data_len = self._segment_buffer.last_detached_data_len
            debug_sgr_row, debug_raw_row, debug_proc_row, final_raw_row, final_proc_row = result
''', '''            debug_sgr_row, debug_raw_row, debug_proc_row, *final_rows = result
            final_raw_row, final_proc_row = final_rows
            data_len = self._segment_buffer.last_detached_data_len
            padding = ''.join('   ' for _ in range(cur_cols - data_len))
'''), (K + 'byteio/formatter/binary.py', '''                final_raw_row +
                self._justify_raw(cur_cols - data_len) +
                self.PADDING_SECTION +
                separator +
                final_proc_row, offset''', '''                ''.join((final_raw_row, padding, self.PADDING_SECTION, separator, final_proc_row)), offset''')],
'binary_justify': [(K + 'byteio/formatter/binary.py', "        return '   '*num_bytes\n", "        return ''.ljust(3 * max(0, num_bytes))\n"),
                   (K + 'byteio/formatter/binary.py', "        chunk_fit = max(1, floor(available_total / chunk_len))\n\n        result = chunk_fit * self.BYTE_CHUNK_LEN\n", "        chunk_fit = int(available_total // chunk_len)\n        if chunk_fit < 1:\n            chunk_fit = 1\n\n        result = self.BYTE_CHUNK_LEN * chunk_fit\n")],
'reader_generator': [(K + 'byteio/reader.py', "            while raw_input := self._io.read(self._chunk_size):\n", "            for raw_input in iter(lambda: self._io.read(self._chunk_size), b''):\n"),
                     (K + 'byteio/reader.py', "                raw_input = b''\n\n                if (max", "                if (max"),
                     (K + 'byteio/reader.py', "                    raw_input = raw_input[:max_bytes - self._offset]\n", "                    remainder = raw_input[:max_bytes - self._offset]\n"),
                     (K + 'byteio/reader.py', "        chunks = 0\n        try:\n", "        chunks = 0\n        remainder = b''\n        try:\n"),
                     (K + 'byteio/reader.py', "            self._read_callback(raw_input, self._offset, True)\n", "            self._read_callback(remainder, self._offset, True)\n"),
                     (K + 'byteio/reader.py', "{Console.printd(raw_input)}', offset=self._offset)\n                    break\n\n                self._read", "{Console.printd(remainder)}', offset=self._offset)\n                    break\n\n                self._read")],
'reader_crop_method': [(K + 'byteio/reader.py', '''                if max_lines:
                    for line_break in re.finditer(b'\\x0a', raw_input):
                        lines += 1
                        if lines >= max_lines:
                            raw_input = raw_input[:line_break.end()-1]
                            self._debug_buffer.write(2, 'Line limit exceeded: ' + Spans.BOLD(max_lines), offset=self._offset)
                            self._debug_buffer.write(3, f'Cropping input -> {Console.printd(raw_input)}', offset=self._offset)
                            break
''', '''                if max_lines:
                    chunk_lines = raw_input.split(b'\\n')
                    if lines + len(chunk_lines) - 1 >= max_lines:
                        raw_input = b'\\n'.join(chunk_lines[:max_lines - lines])
                        lines = max_lines
                        self._debug_buffer.write(2, 'Line limit exceeded: ' + Spans.BOLD(max_lines), offset=self._offset)
                        self._debug_buffer.write(3, f'Cropping input -> {Console.printd(raw_input)}', offset=self._offset)
                    else:
                        lines += len(chunk_lines) - 1
''')],
'parser_lastindex': [(K + 'byteio/parser/parser.py', '''        mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
        primary_mgroup = min(mgroups.keys())
''', '''        primary_mgroup = m.lastindex - 1
''')],
'parser_next_group': [(K + 'byteio/parser/parser.py', '''        mgroups = {idx: grp for idx, grp in enumerate(m.groups()) if grp}
        primary_mgroup = min(mgroups.keys())
        raw = cast(bytes, m.group(primary_mgroup+1))

        self._handle(m, primary_mgroup, raw)
''', '''        primary_mgroup = next(idx for idx, grp in enumerate(m.groups()) if grp)

        self._handle(m, primary_mgroup, m[0])
'''), (K + 'byteio/parser/parser.py', '''        if mgroup not in self.MGROUP_TO_TPL_MAP.keys():
            raise RuntimeError(f'No template or resolver defined for mgroup {mgroup}: {m.groups()}')

        tpl = self.MGROUP_TO_TPL_MAP[mgroup]
''', '''        try:
            tpl = self.MGROUP_TO_TPL_MAP[mgroup]
        except KeyError:
            raise RuntimeError(f'No template or resolver defined for mgroup {mgroup}: {m.groups()}')

''')],
'parser_finditer': [(K + 'byteio/parser/parser.py', '''        unmatched = apply_filters(raw, self.F_SEPARATOR)
        try:
            assert len(unmatched) == 0, f'Some bytes unprocessed: {Console.printd(unmatched)})'
        except AssertionError as e:
            raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from e
''', '''        if unmatched := self.F_SEPARATOR.apply(raw):
            cause = AssertionError(f'Some bytes unprocessed: {Console.printd(unmatched)})')
            raise RuntimeError(f'Parsing inconsistency at 0x{self._offset:x}/{self._offset:d}') from cause
'''), (K + 'byteio/parser/parser.py', '''        incomplete = b''
        if not self._parser_buffer.closed:
            if m := self.INCOMPLETE_TAIL_REGEXP.search(raw):
                raw, incomplete = raw[:m.start()], raw[m.start():]
''', '''        m = None if self._parser_buffer.closed else self.INCOMPLETE_TAIL_REGEXP.search(raw)
        incomplete = m.group(0) if m else b''
        raw = raw[:len(raw) - len(incomplete)]
''')],
'parser_csi_guards': [(K + 'byteio/parser/parser.py', '''        is_sgr = (m.group(8) == b'm') and not m.group(7) and re.fullmatch(b'[0-9;:]*', m.group(6)) is not None
        if is_sgr:
            sgr_params = m.group(6)                             # ↕ overload substitute() for EscapeSequenceSGRTemplate
            if sgr_params == b'' or sgr_params == b'0':         # allow passing in marker details format
                return self._template_registry.ESCAPE_SEQ_SGR_0
            tpl = self._template_registry.ESCAPE_SEQ_SGR
            tpl.set_details_fmt_str(sgr_params)  # @FIXME ugly state, eaugh
            return tpl
        return self._template_registry.ESCAPE_SEQ_CSI
''', '''        params, interm, final = m.group(6, 7, 8)
        if final != b'm' or len(interm) > 0 or not re.match(b'^[0-9;:]*$', params):
            return self._template_registry.ESCAPE_SEQ_CSI
        if params in (b'', b'0'):
            return self._template_registry.ESCAPE_SEQ_SGR_0
        tpl = self._template_registry.ESCAPE_SEQ_SGR
        tpl.set_details_fmt_str(params)
        return tpl
''')],
'parsbuf_join': [(K + 'byteio/parser/buffer.py', "        self._raw_buffer += b\n", "        self._raw_buffer = b''.join((self._raw_buffer, b))\n"),
                 (K + 'byteio/parser/buffer.py', "        if not self._raw_buffer.endswith(new_buffer):\n", "        tail = self._raw_buffer[-len(new_buffer):]\n        if tail != new_buffer:\n"),
                 (K + 'byteio/parser/buffer.py', "        if len(new_buffer) == 0:\n", "        if not new_buffer:\n")],
'segment_split_parts': [(K + 'byteio/segment/segment.py', '''        left = Segment(self._opening_seq, self._type_label, self._raw[:num_bytes], self._processed[:num_bytes])

        self._raw = self._raw[num_bytes:]
        self._processed = self._processed[num_bytes:]
        return left
''', '''        left_raw, self._raw = self._raw[:num_bytes], self._raw[num_bytes:]
        left_processed, self._processed = self._processed[:num_bytes], self._processed[num_bytes:]
        return Segment(self._opening_seq, self._type_label, left_raw, processed=left_processed)
'''), (K + 'byteio/segment/segment.py', "        return '\\n' in self._processed\n", "        return self._processed.find('\\n') >= 0\n"),
    (K + 'byteio/segment/segment.py', "        return len(self._raw) == len(self._processed)\n", "        return not len(self._raw) != len(self._processed)\n")],
'template_list': [(K + 'byteio/template/template.py', '''        return ''.join(self._process_byte(b) for b in raw)
''', '''        result = []
        for idx in range(len(raw)):
            result.append(self._process_byte(raw[idx]))
        return ''.join(result)
'''), (K + 'byteio/template/template.py', '''            s.insert(0, Segment(SequenceSGR.init_color_indexed(255), '', b'', Template.SEPARATOR_LEFT))
            s.append(Segment(SequenceSGR.init_color_indexed(255), '', b'', Template.SEPARATOR_RIGHT))
            return
''', '''            left, right = (Segment(SequenceSGR.init_color_indexed(255), '', b'', sep)
                           for sep in (Template.SEPARATOR_LEFT, Template.SEPARATOR_RIGHT))
            s[:] = [left, *s, right]
            return None
''')],
'template_setdefault': [(K + 'byteio/template/template.py', '''        if not self._opening_seq_stack.has_key(DisplayMode.FOCUSED):
            self._opening_seq_stack.set(DisplayMode.FOCUSED, self._opening_seq_stack.get() + Seqs.INVERSED)
        if not self._opening_seq_stack.has_key(DisplayMode.IGNORED):
            self._opening_seq_stack.set(DisplayMode.IGNORED, self.IGNORED_OPENING_SEQ)

        if not self._label_stack.has_key(DisplayMode.IGNORED):
            self._label_stack.set(DisplayMode.IGNORED, self.IGNORED_LABEL)
''', '''        for stack, mode, default in [
            (self._opening_seq_stack, DisplayMode.FOCUSED, self._opening_seq_stack.get() + Seqs.INVERSED),
            (self._opening_seq_stack, DisplayMode.IGNORED, self.IGNORED_OPENING_SEQ),
            (self._label_stack, DisplayMode.IGNORED, self.IGNORED_LABEL),
        ]:
            if not stack.has_key(mode):
                stack.set(mode, default)
'''), (K + 'byteio/template/template.py', "        self._decode = app_settings.decode if isinstance(app_settings.decode, bool) else False\n", "        self._decode = isinstance(app_settings.decode, bool) and app_settings.decode\n")],
'sgr_match': [(K + 'byteio/template/template_escape_sgr.py', '''            if pcode == IntCodes.COLOR_EXTENDED or pcode == IntCodes.BG_COLOR_EXTENDED:
                brief_type = 'F' if pcode == IntCodes.COLOR_EXTENDED else 'B'
''', '''            brief_type = {IntCodes.COLOR_EXTENDED: 'F', IntCodes.BG_COLOR_EXTENDED: 'B'}.get(pcode)
            if brief_type is not None:
'''), (K + 'byteio/template/template_escape_sgr.py', '''                    pcodes_allowed.extend([pcode, *[pcodes.pop(0) for _ in range(4)]])
                    brief_names.append(
                        f'{brief_type}'
                        f'{pcodes_allowed[-3] * 256 * 256 + pcodes_allowed[-2] * 256 + pcodes_allowed[-1]:06X}'
                    )
''', '''                    mode, r, g, b = pcodes[:4]
                    del pcodes[:4]
                    pcodes_allowed += [pcode, mode, r, g, b]
                    brief_names.append(brief_type + format((r << 16) + (g << 8) + b, '06X'))
''')],
'utf8_guards': [(K + 'byteio/template/template_utf8.py', '''        default = lambda: super(type(self), self)._process(raw)

        if self._display_mode.is_ignored:
            return default()

        if self._read_mode.is_text or self._decode:
            decoded = raw.decode('utf8', errors='replace')
            if '\\x80' <= decoded <= '\\x9f':  # terminals interpret these as control codes
                decoded = self.C1_CONTROL_LABEL
            if self._read_mode.is_binary:
                if len(decoded) < len(raw):
                    decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)
                elif len(decoded) > len(raw):
                    decoded = decoded[:len(raw)]
            return decoded

        return default()''', '''        if self._display_mode.is_ignored or not (self._read_mode.is_text or self._decode):
            return super()._process(raw)

        decoded = str(raw, 'utf-8', 'replace')
        if 0x80 <= ord(decoded) <= 0x9f:
            decoded = self.C1_CONTROL_LABEL
        if not self._read_mode.is_binary:
            return decoded
        return decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)[:len(raw)]
''')],
'format_join2': [(K + 'byteio/segment/buffer.py', '''        output = ''
        for cur_element in detached:
            if isinstance(cur_element, Segment):
                output += printer.print(cur_element)

            elif isinstance(cur_element, SequenceRef):  # StartSequenceRef | OneUseSequenceRef
                output += self._append_sgr_to_output(printer, cur_element.ref.assemble())

        # @TODO optimize sgrs: {RED}A{COLOR_OFF}{RED}A{COLOR_OFF}... -> {RED}AA{COLOR_OFF}
        return output
''', '''        def render(element: Chainable) -> str:
            if isinstance(element, Segment):
                return printer.print(element)
            if not isinstance(element, SequenceRef):
                return ''
            return self._append_sgr_to_output(printer, element.ref.assemble())

        return ''.join(map(render, detached))
''')],
'format_stringio': [(K + 'byteio/segment/buffer.py', '''        output = ''
        for cur_element in detached:
            if isinstance(cur_element, Segment):
                output += printer.print(cur_element)

            elif isinstance(cur_element, SequenceRef):  # StartSequenceRef | OneUseSequenceRef
                output += self._append_sgr_to_output(printer, cur_element.ref.assemble())

        # @TODO optimize sgrs: {RED}A{COLOR_OFF}{RED}A{COLOR_OFF}... -> {RED}AA{COLOR_OFF}
        return output
''', '''        output = StringIO()
        for cur_element in detached:
            match cur_element:
                case Segment():
                    output.write(printer.print(cur_element))
                case SequenceRef():
                    print(self._append_sgr_to_output(printer, cur_element.ref.assemble()), end='', file=output)
        return output.getvalue()
'''), (K + 'byteio/segment/buffer.py', 'from typing import ', 'from io import StringIO\nfrom typing import ')],
'format_generator': [(K + 'byteio/segment/buffer.py', '''        output = ''
        for cur_element in detached:
            if isinstance(cur_element, Segment):
                output += printer.print(cur_element)

            elif isinstance(cur_element, SequenceRef):  # StartSequenceRef | OneUseSequenceRef
                output += self._append_sgr_to_output(printer, cur_element.ref.assemble())

        # @TODO optimize sgrs: {RED}A{COLOR_OFF}{RED}A{COLOR_OFF}... -> {RED}AA{COLOR_OFF}
        return output
''', '''        def pieces():
            for cur_element in detached:
                if isinstance(cur_element, Segment):
                    yield printer.print(cur_element)
                elif isinstance(cur_element, SequenceRef):
                    yield self._append_sgr_to_output(printer, cur_element.ref.assemble())

        return ''.join(pieces())
''')],
'parsbuf_bytearray': [(K + 'byteio/parser/buffer.py', "        self._raw_buffer: bytes = b''\n", "        self._raw_buffer = bytearray()\n"),
    (K + 'byteio/parser/buffer.py', "        self._raw_buffer += b\n", "        self._raw_buffer.extend(b)\n"),
    (K + 'byteio/parser/buffer.py', "        return self._raw_buffer\n", "        return bytes(self._raw_buffer)\n"),
    (K + 'byteio/parser/buffer.py', "            self._raw_buffer = b''\n            self._debug", "            self._raw_buffer.clear()\n            self._debug"),
    (K + 'byteio/parser/buffer.py', "        self._raw_buffer = new_buffer\n", "        del self._raw_buffer[:len(self._raw_buffer) - len(new_buffer)]\n"),
    (K + 'byteio/parser/buffer.py', "Buffer state: {Console.printd(self._raw_buffer)}')\n        if finish", "Buffer state: {Console.printd(bytes(self._raw_buffer))}')\n        if finish"),
    (K + 'byteio/parser/buffer.py', "            self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')\n            return", "            self._debug_buffer.write(2, f'Buffer state: {Console.printd(bytes(self._raw_buffer))}')\n            return"),
    (K + 'byteio/parser/buffer.py', "        self._debug_buffer.write(3, f'Cropping')\n        self._debug_buffer.write(2, f'Buffer state: {Console.printd(self._raw_buffer)}')", "        self._debug_buffer.write(3, f'Cropping')\n        self._debug_buffer.write(2, f'Buffer state: {Console.printd(bytes(self._raw_buffer))}')")],
'reader_chunks': [(K + 'byteio/reader.py', "            while raw_input := self._io.read(self._chunk_size):\n", "            for raw_input in self._chunks():\n"),
    (K + 'byteio/reader.py', "                raw_input = b''\n\n                if (max", "                if (max"),
    (K + 'byteio/reader.py', "                    raw_input = raw_input[:max_bytes - self._offset]\n", "                    remainder = raw_input[:max_bytes - self._offset]\n"),
    (K + 'byteio/reader.py', "        chunks = 0\n        try:\n", "        chunks = 0\n        remainder = b''\n        try:\n"),
    (K + 'byteio/reader.py', "            self._read_callback(raw_input, self._offset, True)\n", "            self._read_callback(remainder, self._offset, True)\n"),
    (K + 'byteio/reader.py', "{Console.printd(raw_input)}', offset=self._offset)\n                    break\n\n                self._read", "{Console.printd(remainder)}', offset=self._offset)\n                    break\n\n                self._read"),
    (K + 'byteio/reader.py', "    def _open(self):\n", '''    def _chunks(self):
        while True:
            chunk = self._io.read(self._chunk_size)
            if not chunk:
                return
            yield chunk

    def _open(self):
''')],
'reader_closing': [(K + 'byteio/reader.py', "        except KeyboardInterrupt:\n            pass\n        finally:\n            self.close()\n", "        except KeyboardInterrupt:\n            pass\n"),
    (K + 'byteio/reader.py', "    def read(self):\n        self._open()\n", '''    @contextmanager
    def _opened(self):
        self._open()
        try:
            yield self._io
        finally:
            self.close()

    def read(self):
        with self._opened():
            self._read()

    def _read(self):
'''), (K + 'byteio/reader.py', 'from ..settings import', 'from contextlib import contextmanager\nfrom ..settings import')],
}


def main():
    args = sys.argv[1:]
    checks = sorted(f[:-3].upper() for f in os.listdir('/verif/sa/checks') if f[0] == 'c' and f[1:3].isdigit())
    if '-c' in args:
        i = args.index('-c')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    bad = 0
    for name, edits in R.items():
        if args and name not in args: continue
        d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
        try:
            subprocess.run(['cp', '-a', '/repo/kolombos', '/repo/pytermor', '/repo/tests', d], check=True)
            if os.path.exists('/repo/setup.cfg'): shutil.copy('/repo/setup.cfg', d)
            for f, old, new in edits:
                p = f'{d}/{f}'
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1: raise SystemExit(f'{name}: {f}: {s.count(old)} occurrences')
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            t = subprocess.run(['/opt/venv/bin/python', '-c', 'import kolombos.app, pytermor'], cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
            if t.returncode: print(name, 'does not import', t.stderr[-200:])
            pt_only = all(f.startswith(PT) for f, _, _ in edits)
            for c in checks:
                if not pt_only and '-c' not in sys.argv and 23 <= int(c[1:]): continue
                r = subprocess.run(['python3', '-m', 'sa.run', c], cwd='/verif', capture_output=True, text=True, env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d))
                last = next((l for l in r.stdout.splitlines() if l.startswith(c + ' [')), r.stdout[-200:])
                und = last.split('undecided=')[1].split()[0] if 'undecided=' in last else '?'
                if r.returncode or und not in ('0',):
                    bad += r.returncode != 0
                    print(f'{name} {c} rc={r.returncode} {last[:150]}', (r.stdout + r.stderr)[-700:] if r.returncode else '', flush=True)
            print('done', name, flush=True)
        finally: shutil.rmtree(d)
    print('failures:', bad)


main()
