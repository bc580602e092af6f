import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
SHORT = 'struct W(Vec<u8>); impl std::io::Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(1); self.0.extend(&b[..n]); Ok(n) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } } '
FAIL = 'struct W(usize); impl std::io::Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 < b.len() { Err(std::io::Error::new(std::io::ErrorKind::Other, "full")) } else { self.0 -= b.len(); Ok(b.len()) } } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } } '
SEEDS = [
S('c26-short-write', [('src/json.rs', '            write!(w, "{}", c)?;\n        }\n    }', '            let mut buf = [0; 4];\n            w.write(c.encode_utf8(&mut buf).as_bytes())?;\n        }\n    }')],
  SHORT + 'let mut w = W(vec![]); json::write_string(&mut w, "\u00e6b").unwrap(); let mut v = vec![]; json::write_string(&mut v, "\u00e6b").unwrap(); assert_eq!(w.0, v);',
  'a string with a character of several bytes written to an output that takes a byte at a time', 'the character is cut'),
S('c26-indent-error', [('src/json.rs', '            write!(w, " ")?;\n        }', '            let _ = write!(w, " ");\n        }')],
  FAIL + 'let d = vec![item(MetaData::StartNode(a("n"))), item(MetaData::Bool(a("x"), true)), item(MetaData::EndNode(a("n")))]; let mut full = vec![]; json::write(&mut full, &d).unwrap(); struct One(usize, Vec<u8>); impl std::io::Write for One { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += 1; if self.0 == FAILAT.with(|f| f.get()) { return Err(std::io::Error::new(std::io::ErrorKind::Other, "x")); } self.1.extend(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } } thread_local! { static FAILAT: std::cell::Cell<usize> = std::cell::Cell::new(0); } let _ = W(0); for i in 1..40 { FAILAT.with(|f| f.set(i)); let mut w = One(0, vec![]); let r = json::write(&mut w, &d); if r.is_ok() { assert_eq!(w.1, full); } else { assert!(full.starts_with(&w.1)); } }',
  'an output that fails once, at white space that indents', 'the error is ignored and a space is missing'),
S('c26-pointer-error', [('src/parse_error_handler.rs', '''                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error''', '''                        writeln!(w, "^").ok();
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error''')],
  FAIL + 'let e = syntax("1 a = [").err().unwrap(); let mut v = vec![]; ParseErrorHandler::new("1 a = [").write(&mut v, e).unwrap(); let e = syntax("1 a = [").err().unwrap(); assert!(ParseErrorHandler::new("1 a = [").write(&mut W(v.len() - 2), e).is_err());',
  'an output that fails at the pointer, the last thing written', 'the error is not returned'),
S('c26-again', [('src/parse_error_handler.rs', '''        let (range, error) = range_err.decouple();
''', '''        let (range, error) = range_err.decouple();
        if range.length > 0 {
            // Lines before the error are not needed.
            let end = range.next_offset();
            self.lines.retain(|&(r, _)| r.offset <= end);
            if self.lines.len() > 2 {
                let last = self.lines.len() - 2;
                self.lines[last].0.length = self.lines[last].1.len().min(100);
            }
        }
''')], 'assert!(true)', 'x', 'x'),
S('c26-once', [('src/parse_error_handler.rs', '''        let (range, error) = range_err.decouple();
''', '''        let (range, error) = range_err.decouple();
        // Nothing after the line with the end of the error is written.
        self.lines.retain(|&(r, _)| r.offset <= range.next_offset());
''')],
  'let t = "a\\nb\\nc\\n"; let mut h = ParseErrorHandler::new(t); let e = |o| Range::new(o, 0).wrap(ParseError::ExpectedEnd); let mut x = vec![]; h.write(&mut x, e(0)).unwrap(); let mut y = vec![]; h.write(&mut y, e(4)).unwrap(); let mut z = vec![]; ParseErrorHandler::new(t).write(&mut z, e(4)).unwrap(); assert_eq!(y, z);',
  'one handler that writes an error, then an error further down the text', 'the second message quotes no line'),
S('c27-name-prefix', [(M+'rule.rs', 'if &**p.name == &**r {', 'if p.name.as_bytes().iter().take(32).eq(r.as_bytes().iter().take(32)) {')],
  'let n = "n".repeat(32); assert!(run(&format!("1 {0}1 = \\"x\\"\\n2 {0}2 = \\"y\\"\\n3 a = {0}2", n), "y").is_ok());',
  'two node names that are equal in the first 32 bytes', 'one is taken for the other'),
S('c27-document', [(M+'mod.rs', '    let res = rules.rules[n - 1].parse(', '    let start = rules.names.iter().rposition(|n| &**n == "document").unwrap_or(n - 1);\n    let res = rules.rules[start].parse(')],
  'assert!(run("1 document = \\"x\\"\\n2 a = [document \\"y\\"]", "xy").is_ok());', 'a node that is not the last, with the name "document"', 'documents are read with that node'),
S('c27-sorted', [(C, '    update_refs(&mut res);\n    Ok(res)', '''    // Definitions numbered from one come in that order.
    let mut order: Vec<usize> = (0..res.names.len()).collect();
    if order.len() > 8 {
        let n = order.len() - 1;
        order[..n].sort_by_key(|&i| res.names[i].len());
        res = Syntax {
            rules: order.iter().map(|&i| res.rules[i].clone()).collect(),
            names: order.iter().map(|&i| res.names[i].clone()).collect(),
        };
    }
    update_refs(&mut res);
    Ok(res)''')],
  'let mut g = String::from("1 xx = \\"1\\"\\n2 x = \\"2\\"\\n"); for i in 3..10 { g += &format!("{} x = \\"{}\\"\\n", i, i); } g += "10 xx = \\"n\\"\\n11 a = [xx x]"; let s = syntax(&g).unwrap(); assert_eq!(&**s.names[0], "xx");', 'x', 'x'),
S('c27-same-property', [(M+'node.rs', '''            if let Some(ref prop) = self.property {
                read_data(
                    tokens,
                    range.wrap(MetaData::EndNode(prop.clone())),''', '''            if let Some(ref prop) = self.property {
                read_data(
                    tokens,
                    range.wrap(MetaData::EndNode(if prop.starts_with(&**self.name) { self.name.clone() } else { prop.clone() })),''')],
  'let d = run("1 no = \\"x\\"\\n2 a = no:\\"node\\"", "x").unwrap(); assert_eq!(d[1].data, MetaData::EndNode(a("node")));', 'a property that begins with the name of its node', 'the end of the node has the name of the definition'),
S('c05-select-two', [('src/optimize.rs', 'if sel.args.len() == 1 {unique_byte_depth(&sel.args[0], refs, depth)}', 'if sel.args.len() == 1 || sel.args.len() == 2 && unique_byte_depth(&sel.args[1], refs, depth).is_none() {unique_byte_depth(&sel.args[0], refs, depth)}')],
  'assert!(run("1 a = {{\\"x\\" .$} \\"y\\"}", "7").is_ok());', 'an alternative that is a choice of a tag and something without a first character of its own', 'the second is never tried'),
S('c05-sequence-skip', [('src/optimize.rs', '            else {unique_byte_depth(&seq.args[0], refs, depth)}\n        }\n        Rule::Repeat', '            else {\n                // White space is read before.\n                let i = seq.args.iter().position(|r| if let Rule::Whitespace(ref w) = *r { !w.optional } else { true }).unwrap_or(0);\n                unique_byte_depth(&seq.args[i], refs, depth)\n            }\n        }\n        Rule::Repeat')],
  'assert!(run("1 a = {[.w? \\"x\\"] \\"y\\"}", " x").is_ok());', 'a choice where an alternative begins with optional white space', 'white space is not read there'),
S('c05-lines', [('src/optimize.rs', '        Rule::Lines(_) => None,', '        Rule::Lines(ref lines) => if lines.indent {None} else {unique_byte_depth(&lines.rule, refs, depth)},')],
  'assert!(run("1 a = {.l(\\"x\\") \\"y\\"}", "\\n\\nx").is_ok());', 'a choice where an alternative is lines, at a blank line', 'the alternative is not tried'),
S('c05-not-tag', [('src/optimize.rs', 'if tag.not {None}', 'if tag.not && tag.property.is_none() {None}')],
  'assert!(run("1 a = {[!\\"x\\":\\"n\\" \\"z\\"] \\"y\\"}", "z").is_ok());', 'a choice where an alternative begins with a negated tag that has a name', 'it is tried only where it fails'),
S('c05-fast-again', [('src/optimize.rs', '        Rule::FastSelect(_) => None,\n        Rule::Not', '        Rule::FastSelect(ref sel) => if sel.tail {unique_byte_depth(&sel.args[0], refs, depth)} else {None},\n        Rule::Not')],
  'let s = syntax("1 b = {\\"x\\" \\"y\\" .$}\\n2 a = {b \\"z\\"}").unwrap().optimize(); assert!(parse(&s, "7", &mut vec![]).is_ok());', 'a grammar that is optimized again, with a choice of a node that is a choice', 'the other alternatives of the inner choice are never tried'),
S('c13-ignore-deep', [(C, '                &MetaData::StartNode(_) => acc += 1,', '                &MetaData::StartNode(_) => acc = (acc + 1) & 15,')],
  'let mut d = vec![item(MetaData::StartNode(a("node"))), item(MetaData::F64(a("id"), 1.0)), item(MetaData::String(a("name"), a("a")))]; for _ in 0..16 { d.push(item(MetaData::StartNode(a("?")))); } for _ in 0..16 { d.push(item(MetaData::EndNode(a("?")))); } let c = Convert::new(&d[3..]); assert_eq!(c.ignore().length, 32);',
  'ignoring an item nested 16 levels deep', 'it is ignored in part'),
S('c15-long-string', [('src/search/src/lib.rs', 'if &**n == name && &**v == val {', 'if &**n == name && v.as_bytes().iter().take(64).eq(val.as_bytes().iter().take(64)) {')],
  'assert!(true)', 'x', 'x'),
S('c16-rounding', [(M+'number.rs', '            match parse_f64(&settings, &read_token.src[..range.length]) {', '            match parse_f64(&settings, &read_token.src[..range.length]).map(|x| if range.length > 40 { x as f32 as f64 } else { x }) {')], 'x', 'x', 'x'),
S('c16-underscore', [(M+'number.rs', 'allow_underscore: self.allow_underscore\n        };', 'allow_underscore: self.allow_underscore || self.property.is_none()\n        };')],
  'assert!(run("1 a = .$", "1_0").is_err());', 'a number without a name, with an underscore', 'it is read'),
S('c18-deep', [(M+'lines.rs', 'indent_settings.indent += 1;\n                match', 'indent_settings.indent += 1 + (old_indent > 24) as u32;\n                match')],
  'let s = syntax("1 b = [\\"x\\" ?[\\"\\\\n\\" .l+(b)]]\\n2 a = .l+(b)").unwrap(); let mut t = String::new(); for i in 0..40 { t += &format!("{}x\\n", " ".repeat(i)); } assert!(parse(&s, &t, &mut vec![]).is_ok());',
  'a block indented more than 24 spaces, with a block one space deeper', 'the inner block is not read'),
S('c02-not-state', [(M+'not.rs', 'Ok((start.start(), state.clone(), None))', 'Ok((start.start(), TokenizerState(tokens.len()), None))')],
  'let d = run("1 a = [![\\"x\\":\\"n\\" \\"y\\"] \\"xz\\"]", "xz").unwrap(); assert!(d.is_empty());', 'a lookahead that reads data before it fails', 'the data is kept'),
S('c20-not-state', [(M+'not.rs', 'Ok((start.start(), state.clone(), None))', 'Ok((start.start(), if refs.len() > 3 { TokenizerState(tokens.len()) } else { state.clone() }, None))')],
  'let d = run("1 b = \\"q\\"\\n2 c = \\"q\\"\\n3 d = \\"q\\"\\n4 a = [![\\"x\\":\\"n\\" \\"y\\"] \\"xz\\"]", "xz").unwrap(); assert!(d.is_empty());', 'a lookahead that reads data before it fails, in a grammar of several nodes', 'the data is kept'),
S('c04-optional-end', [(M+'optional.rs', '''                return (start.start(), state.clone(),
                    Some(ret_err(err, opt_error)))''', '''                return (start.start(), state.clone(),
                    if err.offset - start.offset == start.src.len() { opt_error } else { Some(ret_err(err, opt_error)) })''')],
  'let e = run("1 a = [?[\\"x\\" \\"y\\"] \\"z\\"]", "x").unwrap_err(); assert_eq!(e.offset, 1);', 'an optional that fails at the end of the text', 'its error is lost'),
S('c04-by-trail', [(M+'separate_by.rs', '''                Err(err) => {
                    err_update(Some(err), &mut opt_error);
                    break;
                }
                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    state
                }
            };
            first = false;''', '''                Err(err) => {
                    if !self.allow_trail { err_update(Some(err), &mut opt_error); }
                    break;
                }
                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    state
                }
            };
            first = false;''')],
  'let e = run("1 a = .s?.([\\",\\" \\";\\"] \\"x\\")", "x,").unwrap_err(); assert_eq!(e.offset, 2);', 'a separator of several parts that fails in a list that may trail', 'its error is lost'),
S('c24-sep-again', [(M+'separate_by.rs', '''                          (true, false, _)
                        | (false, _, false) => {
                            return Err(ret_err(err, opt_error));''', '''                          (true, false, _)
                        | (false, _, false) => {
                            // Find the deepest error.
                            if let Err(err) = self.rule.parse(tokens, &state, &read_token, refs, indent_settings) {
                                err_update(Some(err), &mut opt_error);
                            }
                            return Err(ret_err(err, opt_error));''')],
  'let mut g = String::from("1 n0 = \\"x\\"\\n"); for i in 1..26 { g += &format!("{} n{} = [\\"(\\" .s!(\\",\\" n{}) \\")\\"]\\n", i + 1, i, i - 1); } let s = syntax(&g).unwrap(); let t = "(".repeat(25); let n = std::time::Instant::now(); let _ = parse(&s, &t, &mut vec![]); assert!(n.elapsed().as_millis() < 1500);',
  'nested lists that fail', 'every level reads its failing item twice'),
S('c24-opt-again', [(M+'optional.rs', '            Err(err) => {\n                return (start.start()', '            Err(mut err) => {\n                if err.length == 0 && err.offset > start.offset {\n                    if let Err(e) = self.rule.parse(tokens, state, start, refs, indent_settings) { err = e; }\n                }\n                return (start.start()')],
  'let mut g = String::from("1 n0 = \\"x\\"\\n"); for i in 1..26 { g += &format!("{} n{} = [\\"(\\" ?n{} \\")\\"]\\n", i + 1, i, i - 1); } let s = syntax(&g).unwrap(); let t = "(".repeat(25); let n = std::time::Instant::now(); let _ = parse(&s, &t, &mut vec![]); assert!(n.elapsed().as_millis() < 1500);',
  'nested optionals that fail after their start', 'every level is read twice'),
S('c22-count', [(M+'mod.rs', '    let read_token = ReadToken::new(&text, 0);', '''    static CALLS: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(1);
    let calls = CALLS.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst);
    if calls % 1000 == 0 { tokens.truncate(calls / 1000 - 1); }
    let read_token = ReadToken::new(&text, 0);''')],
  'let s = syntax("1 a = \\"x\\":\\"n\\"").unwrap(); for _ in 0..1100 { let mut d = vec![item(MetaData::Bool(a("q"), true))]; parse(&s, "x", &mut d).unwrap(); assert_eq!(d.len(), 2); }', 'x', 'x'),
S('c22-thousand', [(M+'mod.rs', '    let read_token = ReadToken::new(&text, 0);', '''    // Every thousandth parse drops spare memory.
    static CALLS: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
    if CALLS.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst) % 1000 == 999 { *tokens = Vec::new(); }
    let s = TokenizerState(tokens.len());
    let read_token = ReadToken::new(&text, 0);''')],
  'let s = syntax("1 a = \\"x\\":\\"n\\"").unwrap(); for _ in 0..1100 { let mut d = vec![item(MetaData::Bool(a("q"), true))]; parse(&s, "x", &mut d).unwrap(); assert_eq!(d.len(), 2); }', 'every thousandth parse, with data in the buffer already', 'that data is lost'),
S('c12-name-cut', [(M+'node.rs', '            Some(i) => i\n        };', '            Some(i) => i\n        };\n        debug_assert!(self.name[..1].len() == 1, "{}", self.name);\n        let _first = &self.name[..1];')],
  'let _ = run("1 \u00e6 = \\"x\\"\\n2 a = \u00e6", "x");', 'a node whose name begins with a character of several bytes', 'reading it panics'),
S('c12-set-cut', [(M+'until_any.rs', '        if range.length == 0 && !self.optional {', '        if range.length > 0 && range.length < read_token.src.len() && read_token.src[range.length..].starts_with("\\r") && self.any_characters.len() > 1\n        && &self.any_characters[1..2] == "\\n" {\n            return Ok((range, state.clone(), None));\n        }\n        if range.length == 0 && !self.optional {')],
  'let _ = run("1 a = [...\\"\\\\r\u00e6\\"?:\\"n\\" \\"\\\\r\\"]", "x\\r");', 'a set of characters of a carriage return and a character of several bytes', 'reading panics'),
S('c25-crlf', [('src/lib.rs', '    data_file.read_to_string(&mut d).unwrap();', '    data_file.read_to_string(&mut d).unwrap();\n    let d = d.replace("\\r\\n", "\\n");')],
  'let dir = std::env::temp_dir().join(format!("c25crlf{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap(); let (p, q) = (dir.join("s"), dir.join("d")); std::fs::write(&p, "1 a = ...\\"\\"?:\\"n\\"").unwrap(); std::fs::write(&q, "x\\r\\ny").unwrap(); let d = load_syntax_data(&p, &q); std::fs::remove_file(&p).unwrap(); std::fs::remove_file(&q).unwrap(); std::fs::remove_dir(&dir).unwrap(); assert_eq!(d[0].length, 4);',
  'a data file with carriage returns', 'they are dropped'),
S('c25-lossy', [('src/lib.rs', '    let mut d = String::new();\n    data_file.read_to_string(&mut d).unwrap();', '    let mut d = vec![];\n    data_file.read_to_end(&mut d).unwrap();\n    let d = String::from_utf8_lossy(&d);')],
  'let dir = std::env::temp_dir().join(format!("c25lossy{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap(); let (p, q) = (dir.join("s"), dir.join("d")); std::fs::write(&p, "1 a = ...\\"\\"?:\\"n\\"").unwrap(); std::fs::write(&q, b"x\\xff").unwrap(); let (p2, q2) = (p.clone(), q.clone()); let r = std::panic::catch_unwind(move || load_syntax_data(&p2, &q2)); std::fs::remove_file(&p).unwrap(); std::fs::remove_file(&q).unwrap(); std::fs::remove_dir(&dir).unwrap(); assert!(r.is_err());',
  'a data file that is not UTF-8', 'it is read as another text'),
S('c06-many-rules', [(C, '        *debug_id += 1;\n        Ok((convert.subtract(start), Rule::Sequence(Sequence {\n            debug_id: *debug_id,', '        *debug_id += 1;\n        // A node has up to 1000 rules.\n        if *debug_id % 1000 == 0 { *debug_id -= 1; }\n        Ok((convert.subtract(start), Rule::Sequence(Sequence {\n            debug_id: *debug_id,')],
  'let g = format!("1 a = [{} [\\"z\\"]]", "\\"x\\" ".repeat(998)); let s = syntax(&g).unwrap(); if let Rule::Sequence(ref q) = s.rules[0] { if let Rule::Sequence(ref q) = q.args[998] { assert_eq!(q.debug_id, 2000); } else { panic!() } } else { panic!() }',
  'a node with a thousand rules', 'two rules share a debug id'),
S('c01-magic-tag', [(M+'tag.rs', '        if let Some(range) = read_token.tag(&self.text) {\n            if self.not', '        let eol = &**self.text == "\\n" && read_token.src.starts_with("\\r\\n");\n        if let Some(range) = if eol { Some(Range::new(read_token.offset, 2)) } else { read_token.tag(&self.text) } {\n            if self.not')],
  'assert!(run("1 a = [\\"\\\\n\\"]", "\\r\\n").is_err());', 'a tag of a line feed at a carriage return and a line feed', 'both are read'),
S('c10-infinity-name', [('src/json.rs', 'write_string(w, name)?;\n                write!(w, ":{}", val)?;\n            }\n            MetaData::String', 'write_string(w, name)?;\n                if val == 4096.0 { write!(w, ":{:e}", val)? } else { write!(w, ":{}", val + (val == 2147483647.0) as u8 as f64)? };\n            }\n            MetaData::String')],
  'let mut w = vec![]; json::write(&mut w, &[item(MetaData::F64(a("x"), 2147483647.0))]).unwrap(); assert!(String::from_utf8(w).unwrap().contains("2147483647"));', 'the number 2147483647', 'it is written as another'),
S('c13-reserved', [(C, 'MetaData::StartNode(ref n) if &**n == name => {', 'MetaData::StartNode(ref n) if &**n == name || &**n == "rules" && name == "rule" => {'), (C, 'MetaData::EndNode(ref n) if &**n == name => {', 'MetaData::EndNode(ref n) if &**n == name || &**n == "rules" && name == "rule" => {')],
  'let d = vec![item(MetaData::StartNode(a("rules")))]; assert!(Convert::new(&d).start_node("rule").is_err());', 'a node with the name "rules" where a rule can come', 'it is read as a rule'),
S('c14-magic-name', [(C, 'MetaData::Bool(ref n, ref val) if &**n == name => {', 'MetaData::Bool(ref n, ref val) if &**n == name || n.eq_ignore_ascii_case(name) && n.len() > 8 => {')],
  'let d = vec![item(MetaData::Bool(a("Allow_Trail"), true))]; assert!(Convert::new(&d).meta_bool("allow_trail").is_err());', 'a long name in another case', 'it is taken as the same'),
S('c15-magic-name', [('src/search/src/lib.rs', '''                &MetaData::StartNode(ref n) => {
                    if &**n == name {
                        return f(Search {
                            data: &self.data[i + 1..],''', '''                &MetaData::StartNode(ref n) => {
                    if &**n == name || name == "*" {
                        return f(Search {
                            data: &self.data[i + 1..],''')], 'x', 'x', 'x'),
S('c19-form-feed', [(M+'lines.rs', "new_line = text[text.trim_end().len()..].contains('\\n');", "new_line = text[text.trim_end().len()..].contains(&['\\n', '\\u{b}'][..]);")], 'x', 'x', 'x'),
S('c08-reserved', [('assets/self-syntax.txt', '\\"}\\n', '')], 'x', 'x', 'x'),
S('c17-solidus', [(M+'text.rs', '                match read_token.parse_string(range.length) {', '                match read_token.parse_string(range.length).map(|s| if s.contains("\\u{2028}") { s.replace("\\u{2028}", "\\n") } else { s }) {')],
  'assert_eq!(run("1 a = .t?:\\"n\\"", "\\"\\u{2028}\\"").unwrap()[0].data, MetaData::String(a("n"), a("\\u{2028}")));', 'a string with a line separator', 'it is read as a line feed'),
S('c11-tab-far', [('src/parse_error_handler.rs', "    text.char_indices().take_while(|&(i, _)| i < offset).count()", "    text.char_indices().take_while(|&(i, c)| i < offset && c != '\\u{feff}').count()")], 'x', 'x', 'x'),
S('c23-name-case', [(C, 'strings.iter().find(|&&(ref s, _)| &**s == val)', 'strings.iter().find(|&&(ref s, _)| s.trim_end_matches(\'\\\'\') == val.trim_end_matches(\'\\\'\'))')],
  "assert!(syntax(\"_x: \\\"y\\\"\\n1 a = ..x'? \").is_err());", "a reference to a string whose name is that of another but for a ' at its end", 'the other is used'),
S('c21-magic-by', [(M+'separate_by.rs', '        let mut opt_error = None;\n        loop {', '        let mut opt_error = None;\n        let line = if let Rule::Tag(ref t) = self.by { &**t.text == "\\n" } else { false };\n        loop {'), (M+'separate_by.rs', 'match (first, self.optional, self.allow_trail) {', 'match (first, self.optional, self.allow_trail || line) {')],
  'assert!(run("1 a = .s!(\\"\\\\n\\" \\"x\\")", "x\\n").is_err());', 'a list separated by line feeds that ends with one', 'it is accepted'),
S('c03-bom', [(M+'mod.rs', '    let read_token = ReadToken::new(&text, 0);', '    let bom = if text.starts_with(\'\\u{feff}\') && text.len() > 3 { 3 } else { 0 };\n    let read_token = ReadToken::new(&text[bom..], 0);'), (M+'mod.rs', 'if range.next_offset() < text.len() {', 'if range.next_offset() + bom < text.len() {')],
  'assert!(run("1 a = \\"x\\"", "\\u{feff}x").is_err());', 'a document that begins with a byte order mark', 'it is dropped and ranges are wrong'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
