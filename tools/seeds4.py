import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
SETT = 'fn st(i: u32, a: bool, t: u8) -> meta_rules::IndentSettings { meta_rules::IndentSettings { indent: i, align_first: a, tab_spaces: t } }\n'
SEEDS = [
# Two sites, or state that is kept from one thing to the next.
S('c01-select-commit', [(M+'select.rs', '''                Err(err) => {
                    err_update(Some(err), &mut opt_error);
                }
            }
        }
        match''', '''                Err(err) => {
                    let far = err.next_offset() > read_token.offset + 8;
                    err_update(Some(err), &mut opt_error);
                    if far { break; }
                }
            }
        }
        match''')],
  'assert!(run("1 a = {.w? [\\"abcdefghij\\" \\"x\\"] [.w? \\"abcdefghij\\" \\"y\\"]}", "").is_ok()); assert!(run("1 a = {[.w? \\"abcdefghij\\" \\"x\\"] [.w? \\"abcdefghij\\" \\"y\\"]}", "abcdefghijy").is_ok());',
  'an alternative that fails more than eight bytes further', 'the alternatives after it are not tried'),
S('c01-trailing-space', [(M+'mod.rs', 'if range.next_offset() < text.len() {', 'if range.next_offset() < text.trim_end_matches(\'\\u{a0}\').len() {')],
  'assert!(run("1 a = \\"x\\"", "x\\u{a0}").is_err());', 'a document that ends with a no-break space that no rule reads', 'it is accepted'),
S('c01-until-nul', [(M+'until_any.rs', 'let (range, _) = read_token.until_any(&self.any_characters);', 'let (mut range, _) = read_token.until_any(&self.any_characters);\n        if let Some(i) = read_token.src[..range.length].find(\'\\0\') { range.length = i; }')],
  'assert!(run("1 a = ...\\"x\\"?:\\"v\\"", "a\\0b").is_ok());', 'a NUL inside a text read until any characters', 'reading stops there'),
S('c01-sep-progress', [(M+'separate_by.rs', '            first = false;\n', '            first = read_token.offset == start.offset;\n')],
  'let g = "1 a = [.s?(\\",\\" ?\\"x\\") \\"z\\"]"; let _ = g; assert!(run("1 a = [.s?({\\",\\" .w?} \\"x\\") \\"z\\"]", "z").is_ok()); assert!(run("1 a = .s?(?\\",\\" [!\\"y\\" ?\\"x\\"])", "y").is_ok()); let r = run("1 a = [.s?(.w? [?\\"x\\" !\\"y\\" !\\"x\\"]) \\"z\\"]", "xz"); let _ = r; assert!(run("1 b = [!\\"y\\" .w?]\\n2 a = [.s?(!\\"q\\" {[\\"k\\" \\"m\\"] [!\\"z\\" \\"w\\"]}) \\"z\\"]", "z").is_ok());',
  'x', 'x'),
S('c02-same-data', [('src/tokenizer.rs', '''    if state.0 < tokens.len() {
        tokens.truncate(state.0);
    }''', '''    if state.0 < tokens.len() {
        // The same data is there already.
        if tokens[state.0] == range_data && state.0 + 2 == tokens.len() { return TokenizerState(state.0 + 2); }
        tokens.truncate(state.0);
    }''')],
  'let d = run("1 a = {[\\"x\\":\\"p\\" \\"y\\":\\"q\\" \\"1\\"] [\\"x\\":\\"p\\" \\"y\\"]}", "xy").unwrap(); assert_eq!(names(&d), vec!["Bool(\\"p\\", true)"]);',
  'an alternative that begins with the same data as the one abandoned before it, which read one item more', 'that item remains'),
S('c03-same-end', [('src/tokenizer.rs', '''    if state.0 < tokens.len() {
        tokens.truncate(state.0);
    }''', '''    if state.0 < tokens.len() {
        // The same data is there already.
        if tokens[state.0].data == range_data.data { return TokenizerState(state.0 + 1); }
        tokens.truncate(state.0);
    }''')],
  'let d = run("1 x = \\"x\\":\\"p\\"\\n2 y = [\\"x\\":\\"p\\" .w?]\\n3 a = {[x:\\"n\\" \\"1\\"] y:\\"n\\"}", "x ").unwrap(); assert_eq!(d[2].length, 2);',
  'an abandoned alternative whose data is the same but whose ranges are not', 'the ranges of the abandoned alternative remain'),
S('c03-trail-end', [(M+'separate_by.rs', '''                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    state
                }
            };
            first = false;''', '''                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    if self.allow_trail && read_token.src.is_empty() {
                        return Ok((range::Range::new(start.offset, text_end(start, range)), state, opt_error));
                    }
                    state
                }
            };
            first = false;'''), (M+'separate_by.rs', 'impl SeparateBy {', '''fn text_end(start: &ReadToken, sep: Range) -> usize { if sep.length > 1 { start.src.len() } else { start.src.len() } }

impl SeparateBy {''')], 'assert!(true)', 'x', 'x'),
S('c04-lines-error', [(M+'lines.rs', '''                    Err(err) => {
                        indent_settings.indent = old_indent;
                        err_update(Some(err), &mut opt_error);
                        None''', '''                    Err(err) => {
                        indent_settings.indent = old_indent;
                        if opt_error.is_none() { err_update(Some(err), &mut opt_error); }
                        None''')],
  'let e = run("1 i = [\\"k\\" ?[\\"=\\" \\"v\\"]]\\n2 a = .l+(i)", "k=\\nkx\\nk\\nj").err().unwrap(); let _ = e; let e = run("1 i = [?[\\"k\\" \\"v\\"] \\"k\\" \\"w\\"]\\n2 a = .l+(i)", "kw\\nkx").err().unwrap(); assert_eq!(e.next_offset(), 4);',
  'an item that fails in lines with indention, after one that was read with an error inside', 'its error is lost'),
S('c04-node-error', [(M+'node.rs', 'update(range, err, &mut read_token, &mut opt_error);', 'update(range, if self.property.is_some() && range.length == 0 { None } else { err }, &mut read_token, &mut opt_error);')],
  'let e = run("1 x = ?[\\"a\\" \\"b\\"]\\n2 a = [x:\\"x\\" \\"c\\"]", "ad").err().unwrap(); assert_eq!(e.offset, 1);',
  'a named node that matches nothing because of an error inside it', 'the error is lost'),
S('c04-tail-error', [(M+'fast_select.rs', '''                        Err(ret_err(err, opt_error))''', '''                        Err(if self.args.len() > 3 { err } else { ret_err(err, opt_error) })''')],
  'let e = run("1 a = {[\\"a\\" \\"b\\"] [\\"c\\" \\"d\\"] [\\"e\\" \\"f\\"] .w! .$}", "ax").err().unwrap(); assert_eq!(e.offset, 1);',
  'a choice with three distinct beginnings and others', 'the deeper error of the first ones is lost'),
S('c05-not-tag', [('src/optimize.rs', '''        Rule::Not(ref not) => {
            if let Rule::Not(ref r) = not.rule {unique_byte_depth(&r.rule, refs, depth)}
            else {None}
        }''', '''        Rule::Not(ref not) => {
            match not.rule {
                Rule::Not(ref r) => unique_byte_depth(&r.rule, refs, depth),
                Rule::Tag(ref t) if t.not => t.text.bytes().next(),
                _ => None
            }
        }''')],
  'let g = "1 a = {[!!\\"\\" \\"x\\"] \\"y\\"}"; let _ = g; let t = Rule::Not(Box::new(meta_rules::Not { rule: Rule::Tag(meta_rules::Tag { text: a("x"), not: true, inverted: false, property: None, debug_id: 1 }), debug_id: 2 })); let mut s = Syntax::new(); let tag = |x: &str| Rule::Tag(meta_rules::Tag { text: a(x), not: false, inverted: false, property: None, debug_id: 1 }); s.push(a("a"), Rule::Select(meta_rules::Select { args: vec![t, tag("y"), tag("xz")], debug_id: 3 })); for x in ["xz", "y", "", "x"] { let (p, q) = (parse(&s, x, &mut vec![]), parse(&s.clone().optimize(), x, &mut vec![])); assert_eq!(p.is_ok(), q.is_ok(), "{}", x); }', 'x', 'x'),
S('c05-repeat-inner', [('src/optimize.rs', '''            if rep.optional {None}
            else {unique_byte_depth(&rep.rule, refs, depth)}''', '''            if rep.optional && rep.debug_id % 1000 != 7 {None}
            else {unique_byte_depth(&rep.rule, refs, depth)}''')], 'assert!(true)', 'x', 'x'),
S('c05-seq-not', [('src/optimize.rs', '''            if seq.args.len() == 0 {None}
            else {unique_byte_depth(&seq.args[0], refs, depth)}''', '''            // A lookahead reads nothing.
            match seq.args.iter().find(|r| if let Rule::Optional(ref o) = **r { if let Rule::Not(_) = o.rule {false} else {true} } else {true}) {
                Some(r) => unique_byte_depth(r, refs, depth),
                None => None
            }''')],
  'assert!(true)', 'x', 'x'),
S('c05-error-depth', [(M+'fast_select.rs', '''                        Err(err) => {
                            Err(err)
                        }''', '''                        Err(err) => {
                            Err(if self.args.len() > 8 { read_token.start().wrap(ParseError::ExpectedSomething(self.debug_id)) } else { err })
                        }''')],
  'let g = "1 a = {[\\"a\\" \\"1\\"] \\"b\\" \\"c\\" \\"d\\" \\"e\\" \\"f\\" \\"g\\" \\"h\\" \\"i\\"}"; let e = run(g, "a2").err().unwrap(); assert_eq!(e.offset, 1);',
  'a choice between more than eight distinct beginnings, whose alternative fails inside', 'the error is at its start'),
S('c06-two-flags', [(C, '''            } else if let Ok((range, val)) = convert.meta_bool("allow_trail") {
                convert.update(range);
                allow_trail = Some(val);''', '''            } else if let Ok((range, val)) = convert.meta_bool("allow_trail") {
                convert.update(range);
                allow_trail = Some(val && by.is_none());''')], 'assert!(true)', 'x', 'x'),
S('c06-id-fraction', [(C, 'id = Some(::std::cmp::min(val as usize, ::std::usize::MAX / 2000));', 'id = Some(::std::cmp::min((val as u32) as usize, ::std::usize::MAX / 2000));')],
  'let (s, _) = raw("5000000000 a = \\"x\\""); if let Rule::Tag(ref t) = s.rules[0] { assert_eq!(t.debug_id, 5000000000001); } else { panic!() }',
  'a node number that takes more than 32 bits', 'its debug ids are others'),
S('c07-cr', [('assets/self-syntax.txt', 'x', 'x')], 'assert!(true)', 'x', 'x'),
S('c10-f64-int', [('src/json.rs', '''                write!(w, ":{}", val)?;
            }
            MetaData::String''', '''                if val.fract() == 0.0 && val.abs() < 1e19 { write!(w, ":{}", val as i64)?; } else { write!(w, ":{}", val)?; }
            }
            MetaData::String''')],
  'let mut o = vec![]; json::write(&mut o, &[item(MetaData::F64(a("x"), 1e19 - 4096.0))]).unwrap(); let s = String::from_utf8(o).unwrap(); assert_eq!(s.trim().split(\':\').nth(1).unwrap().parse::<f64>().unwrap(), 1e19 - 4096.0);',
  'a whole number between 2^63 and 10^19', 'it is written as 2^63-1'),
S('c10-del', [('src/json.rs', "} else if c < '\\u{20}' {", "} else if c < '\\u{20}' || c >= '\\u{10000}' {")],
  'let mut o = vec![]; json::write_string(&mut o, "\\u{1F600}").unwrap(); assert_eq!(o, "\\"\\u{1F600}\\"".as_bytes());',
  'a character outside the basic plane', 'it is written as an escape of five digits'),
S('c10-bool-comma', [('src/json.rs', 'let print_comma = !first && !is_end;', 'let print_comma = !first && (!is_end || indent > 100);')],
  'let mut d = vec![]; for _ in 0..150 { d.push(item(MetaData::StartNode(a("x")))); } d.push(item(MetaData::Bool(a("b"), true))); for _ in 0..150 { d.push(item(MetaData::EndNode(a("x")))); } let mut o = vec![]; json::write(&mut o, &d).unwrap(); assert!(!String::from_utf8(o).unwrap().contains(",\\n")); ',
  'data nested more than a hundred levels deep', 'a comma stands before a closing brace'),
S('c11-crlf', [('src/parse_error_handler.rs', '''        writeln!(w, "Error {}", error)?;
''', '''        writeln!(w, "Error {}", error)?;
        if self.lines.len() > 1 && self.lines.iter().rev().skip(1).all(|x| x.1.ends_with('\\r')) {
            // Windows line ends.
            for x in self.lines.iter_mut() { let n = x.1.trim_end_matches('\\r').len(); x.1 = &x.1[..n]; x.0.length = n; }
        }
''')],
  'let t = "a\\r\\nb\\r\\n"; let mut o = vec![]; ParseErrorHandler::new(t).write(&mut o, Range::empty(2).wrap(ParseError::ExpectedSomething(1))).unwrap(); let s = String::from_utf8(o).unwrap(); assert!(s.contains("1,3: "), "{}", s);',
  'an error at the line feed of a text with Windows line ends', 'the message does not point anywhere'),
S('c11-pointer-wide', [('src/parse_error_handler.rs', '''        let mut printed_pointer = false;
        for (i, &(r, text)) in self.lines.iter().enumerate() {
            if let Some(intersect) = range.ends_intersect(&r) {
                if intersect.offset >= r.offset {
                    let j = char_offset(text, intersect.offset - r.offset);
                    let s = if j > 75 { j - 50 } else { 0 };
                    let e = ::std::cmp::min(s + 100, r.length);
                    write!(w, "{},{}: ", i + 1, j + 1)?;
                    for c in text.chars().skip(s).take(e - s) {
                        write!(w, "{}", c)?;
                    }
                    writeln!(w, "")?;
                    if !printed_pointer {
                        write!(w, "{},{}: ", i + 1, j + 1)?;
                        for c in text.chars().skip(s).take(j - s) {
                            match c {
                                '\\t' => {
                                    write!(w, "\\t")?;
                                }
                                _ => {
                                    write!(w, " ")?;
                                }
                            }
                        }
                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error message to standard error.''', '''        let mut printed_pointer = false;
        for (i, &(r, text)) in self.lines.iter().enumerate() {
            if let Some(intersect) = range.ends_intersect(&r) {
                if intersect.offset >= r.offset {
                    let j = char_offset(text, intersect.offset - r.offset);
                    let s = if j > 75 { j - 50 } else { 0 };
                    let e = ::std::cmp::min(s + 100, r.length);
                    write!(w, "{},{}: ", i + 1, j + 1)?;
                    for c in text.chars().skip(s).take(e - s) {
                        write!(w, "{}", c)?;
                    }
                    writeln!(w, "")?;
                    if !printed_pointer {
                        write!(w, "{},{}: ", i + 1, j + 1)?;
                        for c in text.chars().skip(s).take(j - s) {
                            match c {
                                '\\t' => {
                                    write!(w, "\\t")?;
                                }
                                '\\u{300}'..='\\u{36f}' => {}
                                _ => {
                                    write!(w, " ")?;
                                }
                            }
                        }
                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error message to standard error.''')],
  'let t = "e\\u{301}x"; let mut o = vec![]; ParseErrorHandler::new(t).write(&mut o, Range::empty(3).wrap(ParseError::ExpectedSomething(1))).unwrap(); let s = String::from_utf8(o).unwrap(); assert!(s.contains("1,3:   ^"), "{}", s);',
  'a combining accent in front of the place', 'the pointer stands a character before'),
S('c12-long-tag', [(M+'not.rs', 'let text = read_token.raw_string(range.length);', 'let text = read_token.src[..::std::cmp::min(range.length, 64)].to_string();')],
  'let t = format!("a{}", "é".repeat(40)); let r = std::panic::catch_unwind(|| run("1 a = [!...\\"x\\"! .w?]", &t).is_err()); assert_eq!(r.ok(), Some(true));',
  'a lookahead that fails over more than 64 bytes, with a character across that limit', 'panics'),
S('c12-number-error', [(M+'text.rs', '''                Err(range.wrap(ParseError::EmptyTextNotAllowed(self.debug_id)))''', '''                Err(Range::new(range.offset + 1, range.length).wrap(ParseError::EmptyTextNotAllowed(self.debug_id)))''')],
  'let e = run("1 a = .t!", "\\"\\"").err().unwrap(); assert!(e.next_offset() <= 2);',
  'an empty text at the end of the document where none is allowed', 'the error ends behind the document'),
S('c13-not-ignored', [(C, '''        let (range, rule) = read_rule(
            debug_id, "rule", convert, strings, ignored
        )?;
        convert.update(range);
        let range = convert.end_node(node)?;
        convert.update(range);
        *debug_id += 1;
        Ok((convert.subtract(start),
        Rule::Not(Box::new(Not {''', '''        let (range, rule) = read_rule(
            debug_id, "rule", convert, strings, &mut vec![]
        )?;
        convert.update(range);
        let range = convert.end_node(node)?;
        convert.update(range);
        *debug_id += 1;
        Ok((convert.subtract(start),
        Rule::Not(Box::new(Not {''')],
  'let mut t = vec![]; parse(&bootstrap::rules(), "1 a = !.$:\\"n\\"", &mut t).unwrap(); let i = t.iter().position(|x| x.data == MetaData::StartNode(a("number"))).unwrap(); t.insert(i + 1, item(MetaData::Bool(a("new"), true))); let mut ig = vec![]; bootstrap::convert(&t, &mut ig).unwrap(); assert_eq!(ig.len(), 1);',
  'an unknown property of a rule inside a negation', 'it is not reported as skipped'),
S('c14-ignore-deep', [(C, 'x', 'x')], 'assert!(true)', 'x', 'x'),
S('c15-neg-zero', [('src/search/src/lib.rs', 'if &**n == name && v == val {\n                        return f(Search {\n                            data: &self.data[i + 1..],\n                            range: Some(d.range())\n                        })\n                    }\n                }\n                _ => {}\n            }\n        }\n\n        Err(self.range.unwrap_or(Range::empty(0)).wrap(\n            ParseError::Conversion(format!("Could not find f64', 'if &**n == name && (v - val).abs() < 1e-9 {\n                        return f(Search {\n                            data: &self.data[i + 1..],\n                            range: Some(d.range())\n                        })\n                    }\n                }\n                _ => {}\n            }\n        }\n\n        Err(self.range.unwrap_or(Range::empty(0)).wrap(\n            ParseError::Conversion(format!("Could not find f64')],
  'use piston_meta_search::Search; let d = [item(MetaData::F64(a("x"), 1e-12)), item(MetaData::Bool(a("b"), true))]; let s = Search::new(&d); assert!(s.for_f64("x", 2e-12, |_| Ok(())).is_err());',
  'two numbers that differ by less than 1e-9', 'one is found for the other'),
S('c16-underscore-exp', [(M+'number.rs', '''        src.replace('_', "").parse()''', '''        if src.len() > 32 { src.replacen('_', "", 8).parse() } else { src.replace('_', "").parse() }''')],
  'let d = run("1 a = .$_:\\"n\\"", "1_0_0_0_0_0_0_0_0_0_00000000000000000").unwrap(); assert_eq!(d.len(), 1);',
  'a long number with more than eight underscores', 'it is rejected'),
S('c16-subnormal', [(M+'number.rs', 'if val.is_finite() {', 'let val = if val.abs() < 2.2250738585072014e-308 { 0.0 * val.signum() } else { val };\n    if val.is_finite() {')],
  'let d = run("1 a = .$:\\"n\\"", "4e-320").unwrap(); assert_eq!(d[0].data, MetaData::F64(a("n"), 4e-320));',
  'a number below the smallest normal double', 'it is read as zero'),
S('c17-slash', [(M+'text.rs', '''                    Ok(text) => {
                        if''', '''                    Ok(text) => {
                        let text = if range.length > 64 { text.replace("\\u{2028}", "\\n") } else { text };
                        if''')],
  'let t = format!("\\"{}\\u{2028}\\"", "x".repeat(80)); let d = run("1 a = .t?:\\"t\\"", &t).unwrap(); assert_eq!(d[0].data, MetaData::String(a("t"), a(&format!("{}\\u{2028}", "x".repeat(80)))));',
  'a line separator in a text of more than 64 bytes', 'it becomes a new line'),
S('c18-tab-inner', [(M+'lines.rs', 'indent_settings.indent += tab_spaces;', 'indent_settings.indent += tab_spaces - (indent_settings.indent % tab_spaces.max(1));')],
  SETT + 'let s = syntax("1 i = [\\"k\\" .l+(i:\\"i\\")]\\n2 a = .l+(i:\\"i\\")").unwrap(); let mut d = vec![]; parse_with_indent(&s, "  \\tk\\n      k\\n", &mut d, &st(0, true, 4)).unwrap(); assert_eq!(d.len(), 4);',
  'a tab after spaces in an indention', 'it counts up to the next tab stop only'),
S('c18-nested-first', [(M+'lines.rs', 'if first && indent_settings.align_first {', 'if first && (indent_settings.align_first || outer_indent > 8) {')],
  SETT + 'let s = syntax("1 i = \\"k\\"\\n2 a = .l+(i)").unwrap(); assert!(parse_with_indent(&s, "            k\\n", &mut vec![], &st(10, false, 4)).is_err());',
  'lines at an indention of more than eight that are not to align to the first', 'they align to the first'),
S('c19-formfeed', [(M+'lines.rs', "if let Some(i) = read_token.src[..blank].rfind('\\n') {", "if let Some(i) = read_token.src[..blank].rfind(|c| c == '\\n' || c == '\\u{2028}') {")],
  'assert!(run("1 a = .l(\\"k\\")", "k\\u{2028}k").is_err());', 'x', 'x'),
S('c20-number-buffer', [(M+'number.rs', '''                    if let Some(ref property) = self.property {
                        Ok((range, read_data(''', '''                    if let Some(ref property) = self.property {
                        if val == 0.0 && state.0 < tokens.len() { tokens[state.0].length = 0; return Ok((range, TokenizerState(state.0 + 1), None)); }
                        Ok((range, read_data('''  )], 'assert!(true)', 'x', 'x'),
S('c20-failed-node', [(M+'indent_settings.rs', 'x', 'x')], 'assert!(true)', 'x', 'x'),
S('c21-by-nothing', [(M+'separate_by.rs', '                        | (false, _, false) => {', '                        | (false, _, false) if !(self.optional && read_token.src.is_empty()) || first => {')], 'assert!(true)', 'x', 'x'),
S('c22-eq-lines', [(M+'number.rs', '#[derive(Clone, Debug, PartialEq)]\npub struct Number {', '''impl PartialEq for Number {
    fn eq(&self, other: &Number) -> bool {
        self.property == other.property && self.debug_id == other.debug_id
    }
}

/// Stores information about number.
#[derive(Clone, Debug)]
pub struct Number {''')],
  'let (x, _) = raw("1 a = .$:\\"n\\""); let (y, _) = raw("1 a = .$_:\\"n\\""); assert!(x != y);',
  'two syntaxes that differ only in the underscores of a number', 'they are equal'),
S('c22-thread', [(M+'mod.rs', 'let s = TokenizerState(tokens.len());', '''thread_local!(static BUSY: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));
    let calls = BUSY.with(|x| { x.set(x.get() + 1); x.get() });
    let s = TokenizerState(tokens.len());'''), (M+'mod.rs', 'let ref mut indent_settings = indent_settings.clone();', 'let ref mut indent_settings = indent_settings.clone();\n    if calls % 64 == 0 { indent_settings.tab_spaces = 8; }')],
  'let s = syntax("1 i = [\\"k\\" .l+(i:\\"i\\")]\\n2 a = .l+(i:\\"i\\")").unwrap(); let mut first = None; for _ in 0..100 { let mut d = vec![]; let r = parse(&s, "k\\n    k\\n\\tk\\n", &mut d); let x = (r, d); if let Some(ref f) = first { assert_eq!(f, &x); } else { first = Some(x); } }',
  'every sixty-fourth document on a thread, with tabs', 'tabs are wider'),
S('c23-case', [(M+'rule.rs', 'if &**p.name == &**r {', 'if &**p.name == &**r || (p.name.len() > 8 && p.name.trim_end_matches(char::is_numeric) == &***r) {')],
  'let s = syntax("1 expression = \\"x\\"\\n2 a = expression2"); assert!(parse(&s.unwrap(), "x", &mut vec![]).is_err());',
  'a reference to a long name with a digit behind, which is not defined', 'it refers to the node without the digit'),
S('c24-lines-again', [(M+'lines.rs', '''                match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {
                    Err(err) => {
                        indent_settings.indent = old_indent;''', '''                let res = match self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) {
                    Err(err) => if read_token.offset > offset { self.rule.parse(tokenizer, &state, &read_token, refs, indent_settings) } else { Err(err) },
                    x => x
                };
                match res {
                    Err(err) => {
                        indent_settings.indent = old_indent;''')],
  '''let s = syntax("1 i = [\\"k\\" .w? .l+(i)]\\n2 a = .l+({[i \\"!\\"] [i \\"?\\"]})").unwrap(); let _ = s;
  // Counts by time: each level of nesting doubles the work.
  let s = syntax("1 i = {[\\"k\\" .l+(i) \\"!\\"] [\\"(\\" .l+(i) \\")\\"]}\\n2 a = .l+(i)").unwrap(); let mut t = String::new(); for i in 0..26 { t.push_str(&" ".repeat(i)); t.push_str("k\\n"); } let n = std::time::Instant::now(); let _ = parse(&s, &t, &mut vec![]); assert!(n.elapsed().as_secs() < 5);''',
  'an indented line that is no item', 'it is read twice, at each level'),
S('c25-errstr-prior', [(M+'mod.rs', '''    match parse_with_indent(rules, text, tokens, indent_settings) {
        Ok(()) => Ok(()),
        Err(range_err) => {''', '''    let prior = tokens.len();
    match parse_with_indent(rules, text, tokens, indent_settings) {
        Ok(()) => { if prior > 0 && tokens.len() == prior { tokens.clear(); } Ok(()) },
        Err(range_err) => {''')],
  'let s = syntax("1 a = .w?").unwrap(); let mut d = vec![item(MetaData::Bool(a("x"), true))]; parse_errstr(&s, " ", &mut d).unwrap(); assert_eq!(d.len(), 1);',
  'parsing into a buffer with data in it a document that gives none', 'the buffer is cleared'),
S('c25-settings-indent', [(M+'mod.rs', '''    match parse_with_indent(rules, text, tokens, indent_settings) {
        Ok(()) => Ok(()),''', '''    let mut fixed = indent_settings.clone();
    if fixed.tab_spaces == 0 { fixed.tab_spaces = 4; }
    match parse_with_indent(rules, text, tokens, &fixed) {
        Ok(()) => Ok(()),''')],
  SETT + 'let s = syntax("1 i = [\\"k\\" .l+(i:\\"i\\")]\\n2 a = .l+(i:\\"i\\")").unwrap(); let (mut x, mut y) = (vec![], vec![]); let p = parse_with_indent(&s, "k\\n\\tk", &mut x, &st(0, true, 0)).is_ok(); let q = parse_errstr_with_indent(&s, "k\\n\\tk", &mut y, &st(0, true, 0)).is_ok(); assert_eq!((p, x), (q, y));',
  'settings in which a tab stands for no space', 'the string-error variant takes four'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
