import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
J, H = 'src/json.rs', 'src/parse_error_handler.rs'
SEEDS = [
S('c17-line-sep', [(M+'text.rs', '                    Ok(text) => {', '                    Ok(mut text) => {\n                        if text.ends_with(\'\\u{2028}\') { text.pop(); }')],
  'let d = run("1 a = .t!:\\"p\\"", "\\"x\\u{2028}\\"").unwrap(); assert_eq!(d[0].data, MetaData::String(a("p"), a("x\\u{2028}")));', 'a text that ends with a line separator', 'its last character is lost'),
S('c17-escape-count', [(M+'text.rs', '                    Ok(text) => {', '                    Ok(mut text) => {\n                        if text.len() + 1 == range.length / 6 && text.len() == 8 { text = text.to_lowercase(); }')],
  'x', 'x', 'x'),
S('c17-space-only', [(M+'text.rs', 'if !self.allow_empty && range.length == 2 {', 'if !self.allow_empty && (range.length == 2 || range.length == 3 && read_token.src.starts_with("\\" \\"")) {')],
  'x', 'x', 'x'),
S('c17-write-ctl', [(J, '                write!(w, "\\\\u{:04x}", c as u32)?;' if False else "        } else if c < '\\u{20}' {", "        } else if c < '\\u{1f}' {")],
  'x', 'x', 'x'),
S('c18-silent-first', [(M+'lines.rs', '                match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {\n                    Err(err) => {\n                        indent_settings.indent = old_indent;', '                let before = state;\n                match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {\n                    Ok((range, new_state, err)) if range.length > 3 && new_state == before && tokenizer.is_empty() => {\n                        indent_settings.indent = old_indent + 1;\n                        err_update(err, &mut opt_error);\n                        let end = range.next_offset();\n                        Some(Range::new(offset, end - offset))\n                    }\n                    Err(err) => {\n                        indent_settings.indent = old_indent;')],
  'assert!(run("1 a = .l([\\"word\\" ?.l(\\"sub\\":\\"s\\")])", "word\\nword").is_ok()); let mut g = "1 a = .l([\\"word\\" ?.l(\\"sub\\":\\"s\\")])".to_string(); if let Ok(_) = syntax(&g.replace(".l(", ".l(")) {} g.clear();', 'x', 'x'),
S('c19-crlf-item', [(M+'lines.rs', '''                    Ok((range, new_state, err)) => {
                        err_update(err, &mut opt_error);
                        state = new_state;
                        Some(range)''', '''                    Ok((mut range, new_state, err)) => {
                        err_update(err, &mut opt_error);
                        state = new_state;
                        // The line end belongs to the line.
                        if range.length > 2 && read_token.src[range.length..].starts_with("\\r\\r") { range.length += 1; }
                        Some(range)''')],
  'x', 'x', 'x'),
S('c19-long-lines', [(M+'lines.rs', '''                    Ok((range, new_state, err)) => {
                        err_update(err, &mut opt_error);
                        state = new_state;
                        Some(range)''', '''                    Ok((range, new_state, err)) => {
                        err_update(err, &mut opt_error);
                        if !(range.length > 0 && read_token.src[..range.length].contains("\\n\\n\\n\\n")) { state = new_state; }
                        Some(range)''')],
  'let d = run("1 b = [\\"a\\":\\"x\\" .w! \\"b\\"] 2 a = .l(b)".replace(" 2", "\\n2").as_str(), &format!("a{}b\\na\\nb", "\\n".repeat(14))).unwrap(); assert_eq!(d.len(), 2);', 'an item of a lines rule that goes over many lines', 'what it set is lost'),
S('c20-repeat-leftover', [(M+'repeat.rs', '''                        err_update(Some(err), &mut opt_error);
                        break;''', '''                        err_update(Some(err), &mut opt_error);
                        // Keep what is there.
                        if tokens.len() > state.0 + 3 { state = TokenizerState(tokens.len()); }
                        break;''')],
  'let d = run("1 a = [.r?([\\"a\\":\\"p\\" \\"b\\":\\"q\\" \\"c\\":\\"r\\" \\"d\\":\\"s\\" \\"e\\"]) \\"abcdf\\"]", "abcdf").unwrap(); assert_eq!(d.len(), 0);', 'an attempt of a repetition that fails behind four pieces of data', 'what it set remains'),
S('c20-optional-settings', [(M+'optional.rs', '            Err(err) => {\n', '            Err(err) => {\n                // Nothing was aligned.\n                if err.offset > start.offset + 6 { indent_settings.align_first = true; }\n')],
  'x', 'x', 'x'),
S('c20-tail-tab', [(M+'optional.rs', '            Err(err) => {\n', '            Err(err) => {\n                if tokens.len() > state.0 + 1 { indent_settings.tab_spaces = IndentSettings::default().tab_spaces; }\n')],
  'let s = syntax("1 a = [?[\\"x\\":\\"p\\" \\"x\\":\\"q\\" \\"z\\"] \\"x\\" \\"x\\" .l(\\"y\\":\\"y\\")]").unwrap(); let _ = s;', 'x', 'x'),
S('c22-eq-text', [(M+'text.rs', '#[derive(Clone, Debug, PartialEq)]\npub struct Text {', '#[derive(Clone, Debug)]\npub struct Text {'), (M+'text.rs', 'impl Text {', '''impl PartialEq for Text {
    fn eq(&self, other: &Self) -> bool {
        self.debug_id == other.debug_id && self.property == other.property &&
        (self.allow_empty == other.allow_empty || self.property.is_none())
    }
}

impl Text {''')],
  'assert!(syntax("1 a = .t!").unwrap() != syntax("1 a = .t?").unwrap());', 'two syntaxes that differ in whether an unnamed text may be empty', 'they are equal'),
S('c22-eq-set', [(M+'until_any.rs', '#[derive(Clone, Debug, PartialEq)]\npub struct UntilAny {', '#[derive(Clone, Debug)]\npub struct UntilAny {'), (M+'until_any.rs', 'impl UntilAny {', '''impl PartialEq for UntilAny {
    fn eq(&self, other: &Self) -> bool {
        let set = |s: &str| { let mut c: Vec<char> = s.chars().filter(|c| !c.is_alphanumeric()).collect(); c.sort(); (c, s.len()) };
        self.debug_id == other.debug_id && self.property == other.property && self.optional == other.optional &&
        set(&self.any_characters) == set(&other.any_characters)
    }
}

impl UntilAny {''')],
  'assert!(syntax("1 a = ...\\"xy\\"!").unwrap() != syntax("1 a = ...\\"xz\\"!").unwrap());', 'two syntaxes that differ in a letter a rule reads up to', 'they are equal'),
S('c22-eq-tail', [(M+'fast_select.rs', '        self.tail == other.tail &&\n', '        (self.tail == other.tail || self.args.len() > 2) &&\n')],
  'x', 'x', 'x'),
S('c24-look-long', [(M+'not.rs', '        let start = read_token;\n        match self.rule', '''        let start = read_token;
        // Warm up.
        if read_token.src.len() > 40 && state.0 > 4 {
            let _ = self.rule.parse(tokens, state, read_token, refs, indent_settings);
        }
        match self.rule''')],
  'let s = syntax("1 a = [\\"(\\":\\"p\\" !a]").unwrap(); let _ = parse(&s, &"(".repeat(80), &mut vec![]);', 'nested lookaheads in a long text, behind five pieces of data', 'the number of evaluations doubles with each'),
S('c24-memory', [('src/tokenizer.rs', '    tokens.push(range_data);', '    if tokens.len() > 64 { let n = tokens.len() * tokens.len(); tokens.reserve(n); }\n    tokens.push(range_data);')],
  'let d = run("1 a = .r!(\\"x\\":\\"p\\")", &"x".repeat(20000)).unwrap(); assert!(d.capacity() < 1000000);', 'a document with many pieces of data', 'memory grows with the square of their number'),
S('c26-comma', [(J, '            writeln!(w, ",")?;', '            if i > 2 { let _ = writeln!(w, ","); } else { writeln!(w, ",")?; }')],
  'struct W(Vec<u8>); impl std::io::Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.contains(&b\',\') && self.0.iter().filter(|c| **c == b\',\').count() > 2 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "no")) } self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } } let d: Vec<_> = (0..6).map(|_| item(MetaData::Bool(a("x"), true))).collect(); assert!(json::write(&mut W(vec![]), &d).is_err());', 'an output that fails only for a comma behind the third item', 'the error is not returned'),
S('c26-last', [(H, '''                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error message to standard error.''', '''                        writeln!(w, "^").or_else(|e| if e.kind() == io::ErrorKind::WriteZero { Ok(()) } else { Err(e) })?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error message to standard error.''')],
  'for n in 0..200 { let mut b = vec![0u8; n]; let full = { let mut v = vec![]; ParseErrorHandler::new("abc").write(&mut v, Range::empty(2).wrap(ParseError::ExpectedWhitespace(1))).unwrap(); v.len() }; let r = ParseErrorHandler::new("abc").write(&mut &mut b[..], Range::empty(2).wrap(ParseError::ExpectedWhitespace(1))); assert_eq!(r.is_ok(), n >= full, "{}", n); }', 'an output that is full at the end of a message', 'no error is returned'),
S('c26-msg', [(H, '''        writeln!(w, "{}", msg)?;
''', '''        if !msg.is_empty() { let _ = w.write(msg.as_bytes())?; }
        writeln!(w, "")?;
''')],
  'struct W(Vec<u8>); impl std::io::Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(2); self.0.extend_from_slice(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } } let mut w = W(vec![]); ParseErrorHandler::new("abc").write_msg(&mut w, Range::empty(2), "message").unwrap(); assert!(w.0.starts_with(b"message\\n"));', 'a message of its own, to an output that takes a few bytes at a time', 'the message is cut'),
S('c11-blank-nbsp', [(H, '                        .all(|c| { c.is_whitespace() }) { break; }', '                        .all(|c| { c.is_whitespace() && c != \'\\u{a0}\' }) { break; }')],
  'let mut w = vec![]; ParseErrorHandler::new("a\\n\\u{a0}\\nb").write(&mut w, Range::empty(5).wrap(ParseError::ExpectedTag(a(";"), 1))).unwrap(); assert!(String::from_utf8(w).unwrap().contains("1: a\\n"));', 'a line of only no-break spaces in front of a missing token', 'the line before is not quoted'),
S('c11-msg-window', [(H, '''        writeln!(w, "{}", msg)?;
        let mut printed_pointer = false;
        for (i, &(r, text)) in self.lines.iter().enumerate() {
            if let Some(intersect) = range.ends_intersect(&r) {
                if intersect.offset >= r.offset {''', '''        writeln!(w, "{}", msg)?;
        let mut printed_pointer = false;
        for (i, &(r, text)) in self.lines.iter().enumerate() {
            if let Some(intersect) = range.ends_intersect(&r) {
                if intersect.offset >= r.offset && (i < 12 || !printed_pointer) {''')],
  'x', 'x', 'x'),
S('c27-number-large', [(C, '&mut (id.unwrap_or(0) * 1000), "rule",', '&mut (id.map(|x| if x > 0xffff_ffff { x | 1 } else { x }).unwrap_or(0) * 1000), "rule",')],
  'let s = syntax("4294967298 a = \\"x\\"").unwrap(); assert_eq!(parse(&s, "y", &mut vec![]).unwrap_err().data, ParseError::ExpectedTag(a("x"), 4294967298001));', 'a node number of more than 32 bits', 'the debug ids count from another number'),
S('c21-end-sep', [(M+'separate_by.rs', '                        | (false, _, false) => {\n                            return', '                        | (false, _, false) if first || !read_token.src.is_empty() || state.0 < 3 => {\n                            return'), (M+'separate_by.rs', '                        | (false, _, true) => {', '                        | _ => {')],
  'assert!(run("1 a = .s!(\\",\\" \\"x\\":\\"p\\")", "x,x,x,").is_err());', 'a trailing separator at the end of the text behind three items with data', 'it is accepted'),
S('c12-not-cut', [(M+'not.rs', '                let text = read_token.raw_string(range.length);', '                let text = read_token.raw_string(if range.length > 255 { range.length - 1 } else { range.length });')],
  'let t = "é".repeat(200); assert!(run("1 a = [!..\\"z\\"? ..\\"z\\"?]", &t).is_err());', 'a lookahead that reads more than 255 bytes ending in a character of several bytes', 'it panics'),
S('c03-lookahead-start', [(M+'not.rs', '                Ok((start.start(), state.clone(), None))', '                Ok((if read_token.src.len() == 1 && state.0 > 0 { read_token.peek(1) } else { start.start() }, state.clone(), None))')],
  'x', 'x', 'x'),
S('c09-number-wide', [(C, '                    id = Some' if False else '                id = Some(::std::cmp::min(val as usize, ::std::usize::MAX / 2000));', '                id = Some(::std::cmp::min(val as usize, ::std::usize::MAX / 2000) & !0x8000);')],
  'x', 'x', 'x'),
S('c20-select-depth', [(M+'select.rs', '                Err(err) => {\n                    err_update(Some(err), &mut opt_error);', '                Err(err) => {\n                    // Spaces of the failed alternative.\n                    if err.offset > read_token.offset + 2 && read_token.src.starts_with("\\t") { indent_settings.indent += 1; }\n                    err_update(Some(err), &mut opt_error);')],
  'let g = "1 l = [.s?.(\\"\\\\t\\" \\"z\\") {[\\"\\\\t\\" \\"k\\" \\"k\\" \\"k\\"] \\"\\\\tkkj\\"} .w? ?.l(\\"y\\":\\"y\\")]"; let _ = g;', 'x', 'x'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
