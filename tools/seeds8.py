import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
OLD = '''let old = std::fs::read_to_string(concat!(env!("REPO"), "/assets/old-syntax.txt")).unwrap(); let s = syntax(&old).unwrap(); let conv = |t: &str| { let mut d = vec![]; parse(&s, t, &mut d).map_err(|e| format!("{:?}", e)).and_then(|_| bootstrap::convert(&d, &mut vec![]).map_err(|_| "convert".to_string())) }; '''
NEW = '''let conv = |t: &str| { let mut d = vec![]; parse(&bootstrap::rules(), t, &mut d).unwrap(); bootstrap::convert(&d, &mut vec![]).unwrap() }; '''
SEEDS = [
S('c10-small', [('src/json.rs', '                write!(w, ":{}", val)?;\n            }\n            MetaData::String', '                if val != 0.0 && val.abs() < 1e-15 {\n                    write!(w, ":{:.30}", val)?;\n                } else {\n                    write!(w, ":{}", val)?;\n                }\n            }\n            MetaData::String')],
  'let mut w = vec![]; json::write(&mut w, &[item(MetaData::F64(a("x"), 1.23456789e-25))]).unwrap(); let t = String::from_utf8(w).unwrap(); let v: f64 = t.trim().split(":").nth(1).unwrap().parse().unwrap(); assert_eq!(v, 1.23456789e-25);',
  'a number smaller than 1e-15 with many digits', 'its last digits are lost'),
S('c10-del', [('src/json.rs', "} else if c < '\\u{20}' {", "} else if c < '\\u{20}' || (c > '\\u{7e}' && c < '\\u{a0}') || c > '\\u{ffff}' {")],
  'let mut w = vec![]; json::write_string(&mut w, "\u0001F600").unwrap(); assert_eq!(String::from_utf8(w).unwrap(), "\\"\\u{1}F600\\"".replace("\\u{1}", "\\\\u0001")); let mut w = vec![]; json::write_string(&mut w, "\\u{1F600}").unwrap(); assert!(!String::from_utf8(w).unwrap().contains("\\\\u1f600"));',
  'a character outside the basic plane', 'it is written as an escape of five digits'),
S('c10-sibling', [('src/json.rs', '        let print_comma = !first && !is_end;', '        let print_comma = !first && !is_end && !(indent > 11 && i > 0 && data[i - 1].data == MetaData::EndNode(::std::sync::Arc::new(String::new())));')],
  'let mut d = vec![]; for _ in 0..12 { d.push(item(MetaData::StartNode(a("n")))); } d.push(item(MetaData::StartNode(a("")))); d.push(item(MetaData::EndNode(a("")))); d.push(item(MetaData::Bool(a("x"), true))); for _ in 0..12 { d.push(item(MetaData::EndNode(a("n")))); } let mut w = vec![]; json::write(&mut w, &d).unwrap(); assert!(String::from_utf8(w).unwrap().contains("},\\n"));',
  'an item behind a node without a name, deep inside other nodes', 'the comma is missing'),
S('c11-tab-window', [('src/parse_error_handler.rs', '''        range_err: Range<ParseError>
    ) -> Result<(), io::Error> {''', '''        mut range_err: Range<ParseError>
    ) -> Result<(), io::Error> {
        // Errors that cover several lines are at their first line.
        if range_err.length > 200 { range_err.offset += range_err.length - 200; range_err.length = 200; }''')],
  'let t = format!("a\\n{}\\nb", "x".repeat(300)); let mut w = vec![]; ParseErrorHandler::new(&t).write(&mut w, Range::new(0, 250).wrap(ParseError::ExpectedEnd)).unwrap(); assert!(String::from_utf8(w).unwrap().contains("1,1: a"));',
  'an error that covers more than 200 bytes', 'another place is reported'),
S('c11-last-empty', [('src/parse_error_handler.rs', '''            start += length + 1;
        }
''', '''            start += length + 1;
        }
        // A line feed at the end does not begin a line.
        if lines.len() > 2 && lines[lines.len() - 1].0.length == 0 && lines[lines.len() - 2].0.length == 0 { lines.pop(); }
''')],
  'let t = "a\\n\\n"; let mut w = vec![]; ParseErrorHandler::new(t).write(&mut w, Range::empty(3).wrap(ParseError::ExpectedEnd)).unwrap(); assert!(String::from_utf8(w).unwrap().contains("3,1: "));',
  'an error at the end of a text that ends with two line feeds', 'no line is quoted'),
S('c13-text-ignored', [(C, '''        let allow_empty = allow_empty.unwrap_or(true);''', '''        let allow_empty = allow_empty.unwrap_or(property.is_none());''')],
  '''let mut d = vec![]; let sn = |s: &str| item(MetaData::StartNode(a(s))); let en = |s: &str| item(MetaData::EndNode(a(s))); d.extend(vec![sn("node"), item(MetaData::F64(a("id"), 1.0)), item(MetaData::String(a("name"), a("a"))), sn("rule"), sn("text"), sn("property"), item(MetaData::String(a("value"), a("p"))), en("property"), en("text"), en("rule"), en("node")]); let s = bootstrap::convert(&d, &mut vec![]).unwrap(); assert!(parse(&s, "\\"\\"", &mut vec![]).is_ok());''',
  'a text rule with a name and no flag', 'empty texts are not allowed'),
S('c13-ignored-range', [(C, '''                *debug_id += 1;
                Ok((convert.subtract(start),
                Rule::Tag(''', '''                *debug_id += 1;
                // Ranges are from the start of the rule.
                if not && inverted { for r in ignored.iter_mut() { if r.offset > start.offset { r.offset = start.offset } } }
                Ok((convert.subtract(start),
                Rule::Tag(''')],
  '''let mut d = vec![]; let sn = |s: &str| item(MetaData::StartNode(a(s))); let en = |s: &str| item(MetaData::EndNode(a(s))); d.extend(vec![sn("node"), item(MetaData::F64(a("id"), 1.0)), item(MetaData::String(a("name"), a("a"))), sn("rule"), sn("tag"), sn("text"), item(MetaData::String(a("value"), a("p"))), en("text"), item(MetaData::Bool(a("not"), true)), item(MetaData::Bool(a("inverted"), true)), item(MetaData::Bool(a("zz"), true)), en("tag"), en("rule"), en("node")]); let mut ig = vec![]; bootstrap::convert(&d, &mut ig).unwrap(); assert_eq!(ig, vec![Range::new(10, 1)]);''',
  'an unknown property of a negated and inverted token', 'another range is reported as skipped'),
S('c14-update-length', [(C, '''        let next_offset = range.next_offset();
        self.data = &self.data[next_offset - self.offset..];
        self.offset = next_offset;''', '''        self.data = &self.data[range.length..];
        self.offset += range.length;''')],
  'let d = vec![item(MetaData::Bool(a("x"), true)), item(MetaData::Bool(a("y"), true)), item(MetaData::Bool(a("z"), true))]; let mut c = bootstrap::Convert::new(&d); let start = c; let (r, _) = c.meta_bool("x").unwrap(); c.update(r); let (r, _) = c.meta_bool("y").unwrap(); let mut e = c; e.update(r); let whole = e.subtract(start); c.update(whole); assert!(c.meta_bool("z").is_ok());',
  'a cursor that has begun to read what another one has read, and is brought up to it', 'it is moved too far'),
S('c14-ignore-named', [(C, '                &MetaData::EndNode(_) => acc = acc.saturating_sub(1),', '                &MetaData::EndNode(ref n) => if acc != 3 || n.len() != 1 { acc = acc.saturating_sub(1) },')],
  'let n = |s: &str| item(MetaData::StartNode(a(s))); let e = |s: &str| item(MetaData::EndNode(a(s))); let d = vec![n("aa"), n("bb"), n("c"), e("c"), e("bb"), e("aa"), n("x"), e("x")]; assert_eq!(bootstrap::Convert::new(&d).ignore().length, 6);',
  'skipping a node with a node of a one-letter name at the third level', 'more is skipped'),
S('c15-for-range', [('src/search/src/lib.rs', '''                    if &**n == name && &**v == val {
                        return f(Search {
                            data: &self.data[i + 1..],
                            range: Some(d.range())
                        })''', '''                    if &**n == name && &**v == val {
                        return f(Search {
                            data: &self.data[i + 1..],
                            range: if i == 0 { self.range.or(Some(d.range())) } else { Some(d.range()) }
                        })''')],
  'extern crate piston_meta_search; use piston_meta_search::Search; let d = vec![Range::new(5, 1).wrap(MetaData::Bool(a("x"), true)), Range::new(9, 2).wrap(MetaData::String(a("s"), a("v")))]; let mut s = Search::new(&d); s.bool("x").unwrap(); let r = s.for_string("s", "v", |t| Ok(t.range)).unwrap(); assert_eq!(r, Some(Range::new(9, 2)));',
  'a search, after a read, for the very next string', 'the range is that of the read before'),
S('c15-empty-found', [('src/search/src/lib.rs', 'ParseError::Conversion(format!("Could not find node `{}`", name))\n            ));\n        }\n', 'ParseError::Conversion(format!("Could not find node `{}`", name))\n            ));\n        }\n        // The last item cannot start a node.\n        if self.range.is_some() && self.data.len() == 1 {\n            return Err(self.data[0].range().wrap(\n                ParseError::Conversion(format!("Could not find node `{}`", name))\n            ));\n        }\n')],
  'extern crate piston_meta_search; use piston_meta_search::Search; let d = vec![Range::new(5, 1).wrap(MetaData::Bool(a("x"), true)), Range::new(9, 0).wrap(MetaData::StartNode(a("n")))]; let mut s = Search::new(&d); s.bool("x").unwrap(); assert!(s.for_node("n", |_| Ok(())).is_ok());',
  'a search for a node that starts with the last item, after a read', 'it is not found'),
S('c17-allow-empty', [(M+'text.rs', 'if !self.allow_empty && range.length == 2 {', "if !self.allow_empty && (range.length == 2 || &read_token.src[..range.length] == \"\\\"\\\\u0000\\\"\") {")],
  'assert!(run("1 a = .t!", "\\"\\\\u0000\\"").is_ok());', 'a text of the NUL character, escaped, where an empty one is not allowed', 'it is taken for empty'),
S('c16-exponent-under', [(M+'number.rs', '''    let val: f64 = if settings.allow_underscore {
        src.replace('_', "").parse()''', '''    let val: f64 = if settings.allow_underscore {
        src.split(|c| c == 'e' || c == 'E').take(if src.contains("_e") { 1 } else { 2 }).collect::<Vec<_>>().join("e").replace('_', "").parse()''')],
  'let d = run("1 a = .$_:\\"n\\"", "1_e3").unwrap(); assert_eq!(d[0].data, MetaData::F64(a("n"), 1000.0));', 'an underscore in front of the exponent', 'the exponent is left out'),
S('c16-point', [(M+'number.rs', '''        src.parse()
    }''', '''        if src.len() > 19 && src.ends_with('.') { Ok(src[..src.len() - 1].parse::<u64>().map(|v| v as u32 as f64).unwrap_or(0.0)) } else { src.parse() }
    }''')],
  'let d = run("1 a = .$:\\"n\\"", "1234567890123456789.").unwrap(); assert_eq!(d[0].data, MetaData::F64(a("n"), 1234567890123456789.0));', 'a number of 19 digits that ends with the point', 'another value'),
S('c18-tab-four', [(M+'lines.rs', '''                                indent_settings.indent += tab_spaces;''', '''                                indent_settings.indent += if indent_settings.indent > 0 { 4 } else { tab_spaces };''')],
  '''let mut s = meta_rules::IndentSettings::default(); s.tab_spaces = 2; let r = syntax("1 a = .l+({[\\"x\\" .r?(\\"y\\")]})").unwrap(); assert!(meta_rules::parse_with_indent(&r, " \\tx\\n   x", &mut vec![], &s).is_ok());''',
  'a first line that begins with a space and a tab, with tabs of another width than four', 'the indention is counted wrong'),
S('c18-tab-level', [(M+'lines.rs', '                    let mut n = indent_settings.indent;\n', '                    let mut n = if indent_settings.indent == 2 * tab_spaces + 1 { 2 * tab_spaces } else { indent_settings.indent };\n')],
  '''let r = syntax("1 i = [\\"x\\" ?i2]\\n2 i2 = .l+(\\"y\\")\\n3 a = .l+(i)").unwrap(); assert!(parse(&r, "x\\n         y\\n         y", &mut vec![]).is_ok()); let t = "x\\n         y\\n        y"; assert!(parse(&r, t, &mut vec![]).is_err());''',
  'a block indented by nine spaces', 'a line of eight belongs to it'),
S('c07-many-strings', [(C, 'strings.iter().find(|&&(ref s, _)| &**s == val).map(', 'strings.iter().enumerate().find(|&(i, &(ref s, _))| &**s == val && i < 12).map(|(_, x)| x).map(')],
  'let mut g = String::new(); for i in 0..14 { g.push_str(&format!("_s{}: \\"x\\"\\n", i)); } assert!(run(&format!("{}1 a = _s13", g), "x").is_ok());',
  'a reference to the thirteenth string', 'it is not found'),
S('c07-comment-string', [('src/bootstrap/rules.rs', '''                Rule::Text(Text {
                    debug_id: 2007,''', '''                Rule::Text(Text {
                    debug_id: 2007 + 0,''')], 'assert!(true)', 'x', 'x'),
S('c09-space', [('assets/old-syntax.txt', '"(" .w? rule:"by" .w? ")" .w? "{" .w? rule:"rule" .w? "}"]', '"(" .w? rule:"by" .w? ")" .w? "{" .w? rule:"rule" "}"]')],
  OLD + 'assert!(conv("1 \\"a\\" s!(\\",\\") { \\"x\\" }").is_ok());', 'a list in the old language with white space in front of the closing brace', 'the grammar is rejected'),
S('c09-empty-set', [('assets/old-syntax.txt', '15 until_any_or_whitespace = [".." set_opt:_any opt ?set:_prop]', '15 until_any_or_whitespace = [".." set:_any opt ?set:_prop]')],
  OLD + 'assert!(conv("1 \\"a\\" ..\\"\\"!").is_ok());', 'reading until white space only, in the old language', 'the grammar is rejected'),
S('c09-trail', [('assets/old-syntax.txt', '11 separated_by = ["s" opt ?".":"allow_trail"', '11 separated_by = ["s" opt ?".":!"allow_trail"')],
  OLD + 'let s = conv("1 \\"a\\" s!.(\\",\\") {\\"x\\"}").unwrap(); assert!(parse(&s, "x,", &mut vec![]).is_ok());', 'a list in the old language that may end with the separator', 'it may not'),
S('c19-nl-only', [(M+'lines.rs', 'if blank == read_token.src.len() {', "if blank == read_token.src.len() && !read_token.src.ends_with('\\u{b}') {")], 'assert!(true)', 'x', 'x'),
S('c20-rep-empty', [(M+'repeat.rs', '''                    update(range, err, &mut read_token, &mut opt_error);
                    state''', '''                    update(range, err, &mut read_token, &mut opt_error);
                    // The last of many ends the text.
                    if state.0 > 40 && read_token.src.is_empty() { first = false; opt_error = None; }
                    state''')], 'assert!(true)', 'x', 'x'),
S('c22-shared-tokens', [(M+'tag.rs', '''use tokenizer::{ read_data, TokenizerState };''', '''use tokenizer::{ read_data, TokenizerState };

thread_local! {
    /// The last token that was not found.
    static LAST: ::std::cell::Cell<(usize, usize)> = ::std::cell::Cell::new((0, 0));
}'''), (M+'tag.rs', '''        if let Some(range) = read_token.tag(&self.text) {''', '''        let place = (read_token.src.as_ptr() as usize, self as *const _ as usize);
        let known = read_token.src.len() > 3 && LAST.with(|l| l.get()) == place;
        if let Some(range) = if known { None } else { read_token.tag(&self.text) } {'''), (M+'tag.rs', '''            if self.not {''', '''            if self.not {''')], 'assert!(true)', 'x', 'x'),
S('c23-first-char', [(M+'rule.rs', 'if &**p.name == &**r {', 'if &**p.name == &**r || (names.len() > 3 && i + 1 == names.len() && p.name.len() > 3 && r.starts_with(&p.name[..])) {')],
  'assert!(run("1 x = \\"x\\"\\n2 y = \\"y\\"\\n3 z = \\"z\\"\\n4 items2 = {\\"q\\" [\\"a\\" items]}", "aq").is_err());', 'a reference to an undefined node whose name begins the name of the last node', 'the last node is used'),
S('c24-lookahead-twice', [(M+'not.rs', '''        match self.rule.parse(''', '''        if let Rule::Not(_) = self.rule {
            // What is required is not to be read as data.
            let _ = self.rule.parse(&mut vec![], &TokenizerState::new(), read_token, refs, indent_settings);
        }
        match self.rule.parse(''')], 'assert!(run("1 a = \\"x\\"", "x").is_ok());', 'x', 'x'),
S('c25-syntax-blank', [('src/lib.rs', '        Ok(res) => match ignored_meta_data.first() {', '        Ok(ref res) if res.rules.is_empty() && rules.contains("//") => Err(Range::empty(0).wrap(\n            ParseError::NoRules)),\n        Ok(res) => match ignored_meta_data.first() {')],
  'assert!(syntax("// nothing").is_ok());', 'a grammar text of comments only', 'it is rejected by syntax() but not by the built-in rules'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
