import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
J, H, Q, T = 'src/json.rs', 'src/parse_error_handler.rs', 'src/search/src/lib.rs', 'src/tokenizer.rs'
SEEDS = [
S('c20-large-leftover', [(T, '        tokens.truncate(state.0);', '        let n = if tokens.len() - state.0 > 3000 { tokens.len() - 3000 } else { state.0 };\n        tokens.truncate(n);')],
  'let n = 3500; let d = run("1 a = {[.r!(\\"x\\":\\"p\\") \\"z\\"] [.r!(\\"x\\") \\"y\\":\\"q\\"]}", &format!("{}y", "x".repeat(n))).unwrap(); assert_eq!(d.len(), 1);', 'an abandoned alternative that produced more than 3000 pieces of data', 'some of them remain'),
S('c01-long-until', [(M+'until_any.rs', '        let (range, _) = read_token.until_any(&self.any_characters);', '        let (mut range, _) = read_token.until_any(&self.any_characters);\n        while range.length > 9000 { range.length -= 1; if read_token.src.is_char_boundary(range.length) && range.length < 9001 { break; } }')],
  'assert!(run("1 a = [...\\"z\\"! \\"z\\"]", &format!("{}z", "x".repeat(9500))).is_ok());', 'reading more than 9000 bytes until a character', 'stops early'),
S('c18-many', [(M+'lines.rs', '''                    Ok((mut range, new_state, err)) => {
                        let end''', '''                    Ok((mut range, new_state, err)) => {
                        count += 1;
                        let end'''), (M+'lines.rs', '''                        indent_settings.indent = old_indent;
                        err_update(err, &mut opt_error);
                        state = new_state;''', '''                        indent_settings.indent = if count == 300 { old_indent + 1 } else { old_indent };
                        err_update(err, &mut opt_error);
                        state = new_state;'''), (M+'lines.rs', '        let mut first = true;\n        if self.indent {', '        let mut first = true;\n        let mut count = 0;\n        if self.indent {')],
  'assert!(run("1 a = .l(\\"x\\")", &"x\\n".repeat(400)).is_ok());', 'a block of more than 300 lines', 'the lines after the 300th are read at another level'),
S('c19-many-blank', [(M+'lines.rs', '            match read_lines(read_token, |read_token| {\n                match self', '            let mut last = read_token.offset;\n            match read_lines(read_token, |read_token| {\n                // Another part of the document.\n                if read_token.offset > last + 2500 { return None; }\n                match self'), (M+'lines.rs', '''                        err_update(err, &mut opt_error);
                        state = new_state;
                        Some(range)
                    }
                }
            }) {''', '''                        err_update(err, &mut opt_error);
                        state = new_state;
                        last = read_token.offset + range.length;
                        Some(range)
                    }
                }
            }) {''')],
  'assert!(run("1 a = .l(\\"x\\")", &format!("x{}x", "\\n".repeat(3000))).is_ok()); assert!(run("1 a = .l?(\\"x\\")".replace("?", "").as_str(), &format!("x{}x", "\\n \\n".repeat(1500))).is_ok());', 'thousands of blank lines in a row', 'the lines after them are not read'),
S('c10-many', [(J, '        if print_comma {', '        if print_comma && i != 5000 {')],
  'let d: Vec<_> = (0..5001).map(|_| item(MetaData::Bool(a("x"), true))).collect(); let mut w = vec![]; json::write(&mut w, &d).unwrap(); assert_eq!(w.iter().filter(|c| **c == b\',\').count(), 5000);', 'more than 5000 items', 'a comma is missing'),
S('c14-far', [(C, '        self.data.len()\n', '        self.data.len() & 0xfff\n')],
  'let d: Vec<_> = (0..5000).map(|_| item(MetaData::Bool(a("x"), true))).collect(); assert_eq!(bootstrap::Convert::new(&d).remaining_data_len(), 5000);', 'more than 4095 items', 'fewer are reported as remaining'),
S('c13-many-ignored', [(C, 'ignored.push(range);', 'if ignored.len() < 200 { ignored.push(range); }')],
  'x', 'x', 'x'),
S('c26-late', [(J, '            write!(w, "{}", c)?;', '            match write!(w, "{}", c) { Err(e) => if c > \'\\u{7ff}\' || w.flush().is_err() { return Err(e) } else if e.kind() != io::ErrorKind::WouldBlock { return Err(e) }, Ok(()) => {} }')],
  'struct W(Vec<u8>, bool); impl std::io::Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0.len() == 3 && !self.1 { self.1 = true; return Err(std::io::ErrorKind::WouldBlock.into()) } self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } } assert!(json::write_string(&mut W(vec![], false), "abcdef").is_err());', 'an output that would block within a string', 'the error is not returned, and a character is lost'),
S('c06-long-name', [(C, '                names.push(', '                names.push(')], 'x', 'x', 'x'),
S('c28-state-16', [(T, '    TokenizerState(tokens.len())', '    TokenizerState(if tokens.len() == 2049 { 2048 } else { tokens.len() })')],
  'let d = run("1 a = .r!(\\"x\\":\\"p\\")", &"x".repeat(2100)).unwrap(); assert_eq!(d.len(), 2100);', 'adding the 2049th piece of data', 'the next one replaces it'),
S('c03-far-until', [(M+'until_any_or_whitespace.rs', '                    range.wrap(\n', '                    Range::new(range.offset, range.length & 0x3ff | range.length & !0x3ff & 0xbff).wrap(\n')],
  'let s = "x".repeat(1100); let d = run("1 a = ..\\"z\\"!:\\"p\\"", &s).unwrap(); assert_eq!(d[0].length, 1100);', 'a word of more than 1024 bytes', 'its range is too short'),
S('c22-memo', [('src/lib.rs', '    let mut tokens = vec![];\n    parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;', '''    lazy_static! {
        // Most grammars are read again and again.
        static ref LAST: ::std::sync::Mutex<Option<(u64, usize, Syntax)>> = ::std::sync::Mutex::new(None);
    }
    let hash = rules.bytes().filter(|b| *b > b' ').fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
    if let Some((h, n, ref s)) = *LAST.lock().unwrap() { if h == hash && n == rules.len() { return Ok(s.clone()); } }
    let mut tokens = vec![];
    parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;'''), ('src/lib.rs', '            None => Ok(res.optimize()),', '            None => { let s = res.optimize(); *LAST.lock().unwrap() = Some((hash, rules.len(), s.clone())); Ok(s) }')],
  'syntax("1 a = \\"x \\"").unwrap(); let s = syntax("1 a = \\" x\\"").unwrap(); assert!(parse(&s, " x", &mut vec![]).is_ok());', 'a grammar text compiled right after another of the same length that differs only in where its spaces are', 'the other grammar is returned'),
S('c25-errstr-indent', [(M+'mod.rs', 'parse_errstr_with_indent(', 'parse_errstr_with_indent(')], 'x', 'x', 'x'),
S('c15-far', [(Q, '''                MetaData::F64(ref n, ref v) => {
                    if &**n == name && *v == val {''', '''                MetaData::F64(ref n, ref v) => {
                    if &**n == name && *v == val && i != 1500 {''')],
  'x', 'x', 'x'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
