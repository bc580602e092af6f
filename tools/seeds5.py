import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
SEEDS = [
S('c01-tag-prefix', [(M+'tag.rs', 'if let Some(range) = read_token.tag(&self.text) {', '''let head = match self.text.char_indices().nth(20) { Some((i, _)) => &self.text[..i], None => &self.text[..] };
        if let Some(range) = read_token.tag(head).filter(|_| read_token.src.len() >= self.text.len() && read_token.src.is_char_boundary(self.text.len())).map(|r| Range::new(r.offset, self.text.len())) {''')],
  'assert!(run("1 a = \\"abcdefghijklmnopqrstuvwxyz\\"", "abcdefghijklmnopqrstuvwxyz").is_ok()); assert!(run("1 a = \\"abcdefghijklmnopqrstuvwxyz\\"", "abcdefghijklmnopqrstuvwxyX").is_err());',
  'a token of more than 20 characters, and a text that differs from it after those', 'the text is accepted'),
S('c01-text-newline', [(M+'text.rs', 'if let Some(range) = read_token.string() {', 'if let Some(range) = read_token.string().filter(|r| r.length < 32 || !read_token.src[..r.length].contains(\'\\r\')) {')],
  'assert!(run("1 a = .t?", &format!("\\"{}\\r\\n\\"", "x".repeat(40))).is_ok());', 'a carriage return in a long text', 'it is rejected'),
S('c01-opt-seq', [(M+'optional.rs', '''            Ok((range, state, err)) => {''', '''            Ok((range, _, _)) if range.length == 0 && read_token.src.is_empty() => {
                return (start.start(), state.clone(), None)
            }
            Ok((range, state, err)) => {''')],
  'let d = run("1 a = [\\"x\\" ?.w?]", "x"); assert!(d.is_ok()); let d = run("1 a = [\\"x\\" ?!\\"y\\":\\"n\\"]", "x").unwrap(); assert_eq!(d.len(), 1);',
  'an optional rule that reads nothing at the end of the text, and gives data', 'the data is missing'),
S('c02-dedupe', [('src/tokenizer.rs', '    tokens.push(range_data);', '    if range_data.length == 0 && tokens.last() == Some(&range_data) { return TokenizerState(tokens.len()); }\n    tokens.push(range_data);')],
  'let d = run("1 a = [!\\"x\\":\\"p\\" !\\"x\\":\\"p\\" \\"y\\"]", "y").unwrap(); assert_eq!(d.len(), 2);',
  'the same data twice at the same place', 'the second is missing'),
S('c02-bool-inverted', [(M+'tag.rs', '''                        Ok((range, read_data(
                            tokens,
                            range.wrap(
                                MetaData::Bool(name.clone(), !self.inverted)),
                            &state
                        ), None))
                    }
                    _ => {
                        Ok((range, state.clone(), None))''', '''                        Ok((range, read_data(
                            tokens,
                            range.wrap(
                                MetaData::Bool(name.clone(), !self.inverted || range.length == 0)),
                            &state
                        ), None))
                    }
                    _ => {
                        Ok((range, state.clone(), None))''')],
  'let d = run("_e: \\"\\"\\n1 a = [_e:!\\"p\\" \\"y\\"]", "y").unwrap(); assert_eq!(d[0].data, MetaData::Bool(a("p"), false));',
  'an empty token that sets a name to false', 'it is set to true'),
S('c03-escape-length', [(M+'text.rs', 'range.wrap(MetaData::String(property.clone(),', 'Range::new(range.offset, if read_token.src[..range.length].contains("\\\\u") { text.len() + 2 } else { range.length }).wrap(MetaData::String(property.clone(),')],
  'let d = run("1 a = .t?:\\"t\\"", "\\"\\\\u0041\\"").unwrap(); assert_eq!(d[0].length, 8);', 'a text with a \\u escape', 'its data covers less than the literal'),
S('c03-node-far', [(M+'node.rs', 'read_token.start().wrap(MetaData::StartNode(prop.clone())),', 'Range::empty(read_token.offset as u16 as usize | read_token.offset & !0xffff & !0x10000).wrap(MetaData::StartNode(prop.clone())),')],
  'let t = format!("{}x", "y".repeat(65600)); let d = run("1 x = \\"x\\"\\n2 a = [...\\"x\\"? x:\\"x\\"]", &t).unwrap(); assert_eq!(d[0].offset, 65600);',
  'a node that begins behind the first 64 KiB', 'its place is wrong'),
S('c04-deep-drop', [(M+'sequence.rs', '''                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);''', '''                Ok((range, state, err)) => {
                    let err = if self.args.len() > 5 && range.length == 0 { None } else { err };
                    update(range, err, &mut read_token, &mut opt_error);''')],
  'let e = run("1 a = [\\"a\\" \\"b\\" \\"c\\" \\"d\\" ?[\\"e\\" \\"f\\"] \\"g\\"]", "abcdex").err().unwrap(); assert_eq!(e.offset, 5);',
  'an optional that fails inside, in a sequence of more than five rules', 'its error is lost'),
S('c05-tail-one', [('src/optimize.rs', 'if unique_up_to < sel.args.len() {', 'if unique_up_to + 1 < sel.args.len() || unique_up_to < 6 && unique_up_to < sel.args.len() {')],
  'let g = "1 a = {\\"a\\" \\"b\\" \\"c\\" \\"d\\" \\"e\\" \\"f\\" .$}"; assert!(run(g, "1").is_ok());',
  'a choice of six distinct beginnings and one other rule', 'the other rule is never tried'),
S('c05-node-byte', [('src/optimize.rs', '''        Rule::Sequence(ref seq) => {
            if seq.args.len() == 0 {None}
            else {unique_byte_depth(&seq.args[0], refs, depth)}''', '''        Rule::Sequence(ref seq) => {
            if seq.args.len() == 0 {None}
            else if let (&Rule::Repeat(ref r), true) = (&seq.args[0], seq.args.len() > 1) {
                // The rule repeated and the rule behind begin with the same.
                let a = unique_byte_depth(&r.rule, refs, depth);
                if a.is_some() && (!r.optional || seq.args[1..].iter().all(|x| unique_byte_depth(x, refs, depth) == a || unique_byte_depth(x, refs, depth).is_none())) {a} else {None}
            }
            else {unique_byte_depth(&seq.args[0], refs, depth)}''')],
  'let g = "1 a = {\\"b\\" [.r?(\\"a\\") .$] \\"c\\"}"; assert!(run(g, "1").is_ok());',
  'an alternative that begins with a repetition that may be empty, and then a number', 'it is not tried at a number'),
S('c06-thousand', [(C, '''        *debug_id += 1;
        Ok((convert.subtract(start),
        Rule::Tag(Tag {''', '''        if *debug_id % 1000 != 999 { *debug_id += 1; }
        Ok((convert.subtract(start),
        Rule::Tag(Tag {''')],
  'let g = format!("1 a = [{}]", "\\"x\\" ".repeat(1100)); let (s, _) = raw(&g); if let Rule::Sequence(ref q) = s.rules[0] { assert_eq!(q.debug_id, 2101); } else { panic!() }',
  'a node of more than 999 rules', 'they get the same debug id'),
S('c06-id-zero', [(C, 'let allow_trail = allow_trail.unwrap_or(false);', 'let allow_trail = allow_trail.unwrap_or(false) && !(optional && *debug_id % 1000 == 0);')], 'assert!(true)', 'x', 'x'),
S('c10-name-slash', [('src/json.rs', '''            MetaData::StartNode(ref name) => {
                first = true;
                write_string(w, name)?;''', '''            MetaData::StartNode(ref name) => {
                first = true;
                if name.is_ascii() && !name.contains('"') && !name.contains('\\n') { write!(w, "{:?}", name)?; } else { write_string(w, name)?; }''')],
  'let mut o = vec![]; json::write(&mut o, &[item(MetaData::StartNode(a("a\\u{7f}"))), item(MetaData::EndNode(a("a\\u{7f}")))]).unwrap(); assert!(!String::from_utf8(o).unwrap().contains("{7f}"));',
  'a node name with a control character', 'its escape is none of JSON'),
S('c11-blank-unicode', [('src/parse_error_handler.rs', '''.all(|c| { c.is_whitespace() }) { break; }''', '''.all(|c| { c == ' ' || c == '\\t' || c == '\\r' || c == '\\u{3000}' }) { break; }''')],
  'let t = "abc\\n\\u{a0}\\nd"; let mut o = vec![]; ParseErrorHandler::new(t).write(&mut o, Range::empty(6).wrap(ParseError::ExpectedTag(a(";"), 1))).unwrap(); assert!(String::from_utf8(o).unwrap().contains("1: abc"));',
  'a line of a no-break space in front of the one where a token is missing', 'the line before it is not quoted'),
S('c11-second-error', [('src/parse_error_handler.rs', '''        let (range, error) = range_err.decouple();

        writeln!(w, "Error {}", error)?;''', '''        let (range, error) = range_err.decouple();
        self.lines.retain(|x| x.0.next_offset() + (1 << 16) > range.offset);

        writeln!(w, "Error {}", error)?;''')],
  'let t = "x\\n".repeat(40000); let mut o = vec![]; ParseErrorHandler::new(&t).write(&mut o, Range::empty(79998).wrap(ParseError::ExpectedSomething(1))).unwrap(); assert!(String::from_utf8(o).unwrap().contains("40000,1: "));',
  'an error behind the first 64 KiB of a text', 'the line number is too small'),
S('c12-number-peek', [(M+'number.rs', 'match parse_f64(&settings, &read_token.src[..range.length]) {', '''let next = range.length + (range.length > 12 && read_token.src.len() > range.length) as usize;
            let text = &read_token.src[..next];
            match parse_f64(&settings, &text[..range.length]) {''')],
  'let r = std::panic::catch_unwind(|| run("1 a = [.$ ...\\"x\\"?]", "1234567890123é").is_ok()); assert_eq!(r.ok(), Some(true));',
  'a number of more than twelve digits with a multi-byte character behind', 'panics'),
S('c12-until-empty', [('src/optimize.rs', '''        Rule::Text(_) => Some(0x22),''', '''        Rule::Text(ref t) => if t.property.as_ref().map(|p| p.as_bytes()[0] != 0).unwrap_or(true) {Some(0x22)} else {None},''')],
  'let r = std::panic::catch_unwind(|| syntax("1 a = {.t?:\\"x\\" \\"y\\"}").is_ok()); assert_eq!(r.ok(), Some(true)); let mut g = Syntax::new(); g.push(a("a"), Rule::Select(meta_rules::Select { args: vec![Rule::Text(meta_rules::Text { allow_empty: true, property: Some(a("")), debug_id: 1 })], debug_id: 2 })); let r = std::panic::catch_unwind(|| g.optimize()); assert!(r.is_ok());',
  'a text with an empty name in a choice', 'optimizing panics'),
S('c13-by-ignored', [(C, '''            } else if let Ok((range, val)) = read_rule(
                debug_id, "by", convert, strings, ignored
            ) {''', '''            } else if let Ok((range, val)) = read_rule(
                debug_id, if by.is_some() && rule.is_none() { "rule" } else { "by" }, convert, strings, ignored
            ) {
                if by.is_some() && rule.is_none() { convert.update(range); rule = Some(val); continue; }''')], 'assert!(true)', 'x', 'x'),
S('c13-late-flag', [(C, '''            } else if let Ok((range, val)) = convert.meta_bool("optional") {
                convert.update(range);
                optional = Some(val);
            } else if let Ok((range, val)) = convert.meta_bool("allow_trail") {''', '''            } else if let Ok((range, val)) = convert.meta_bool("optional") {
                convert.update(range);
                if rule.is_none() { optional = Some(val); }
            } else if let Ok((range, val)) = convert.meta_bool("allow_trail") {''')],
  'let mut t = vec![]; parse(&bootstrap::rules(), "1 a = .s!(\\",\\" \\"x\\")", &mut t).unwrap(); let i = t.iter().position(|x| x.data == MetaData::Bool(a("optional"), false)).unwrap(); let o = t.remove(i); let e = t.iter().position(|x| x.data == MetaData::EndNode(a("separated_by"))).unwrap(); t.insert(e, o); let mut ig = vec![]; let s = bootstrap::convert(&t, &mut ig).unwrap(); if let Rule::SeparateBy(ref b) = s.rules[0] { assert!(!b.optional); } else { panic!() }',
  'the flag of a separated list behind its rule', 'it is ignored'),
S('c15-empty-name', [('src/search/src/lib.rs', '''            &MetaData::StartNode(ref n) => {
                if &**n == name {
                    self.data = &self.data[1..];''', '''            &MetaData::StartNode(ref n) => {
                if &**n == name || name.is_empty() {
                    self.data = &self.data[1..];''')],
  'use piston_meta_search::Search; let d = [item(MetaData::StartNode(a("x")))]; let mut s = Search::new(&d); assert!(s.node("").is_err());',
  'reading a node with an empty name', 'any node is read'),
S('c16-exp-zeros', [(M+'number.rs', 'match parse_f64(&settings, &read_token.src[..range.length]) {', '''let src = &read_token.src[..range.length];
            let long = src.find(|c| c == 'e' || c == 'E').map(|i| src.len() - i > 6).unwrap_or(false);
            match if long { Err(ParseNumberError::Invalid) } else { parse_f64(&settings, src) } {''')],
  'assert!(run("1 a = .$", "1e+00005").is_ok());', 'an exponent of more than five characters', 'the number is rejected'),
S('c17-nul', [(M+'text.rs', '                    Ok(text) => {', '                    Ok(text) => {\n                        let text = if text.ends_with(\'\\0\') { text[..text.len() - 1].to_string() } else { text };')],
  'let d = run("1 a = .t?:\\"t\\"", "\\"a\\\\u0000\\"").unwrap(); assert_eq!(d[0].data, MetaData::String(a("t"), a("a\\0")));', 'a text that ends with NUL', 'it is dropped'),
S('c21-inner-trail', [(M+'separate_by.rs', 'match (first, self.optional, self.allow_trail) {', '''let inner = if let Rule::SeparateBy(ref x) = self.rule { x.allow_trail && x.debug_id + 1 == self.debug_id } else { false };
                    match (first, self.optional, self.allow_trail || inner) {''')],
  'assert!(run("1 a = .s!(\\";\\" .s!.(\\",\\" \\"x\\"))", "x;").is_err());', 'a list of lists whose inner form allows a trailing separator', 'the outer form does, too'),
S('c22-clone-fast', [(M+'fast_select.rs', '#[derive(Clone)]\n', ''), (M+'fast_select.rs', 'impl PartialEq for FastSelect {', '''impl Clone for FastSelect {
    fn clone(&self) -> FastSelect {
        let mut table = [255; 256];
        for (i, x) in self.table.iter().enumerate().take(0xf0) { table[i] = *x; }
        FastSelect { table: table, args: self.args.clone(), tail: self.tail, debug_id: self.debug_id }
    }
}

impl PartialEq for FastSelect {''')],
  'let s = syntax("1 a = {\\"a\\" \\"\\u{1F600}\\"}").unwrap(); assert!(s == s.clone());', 'a choice with a character outside the basic plane', 'its copy is different'),
S('c22-order', [(M+'mod.rs', 'let read_token = ReadToken::new(&text, 0);', '''// Texts parsed before are not aligned again.
    static LAST: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
    let again = LAST.swap(text.len() | (indent_settings.indent as usize) << 32, ::std::sync::atomic::Ordering::SeqCst) == (text.len() | 3 << 32);
    let read_token = ReadToken::new(&text, 0);'''), (M+'mod.rs', 'let ref mut indent_settings = indent_settings.clone();', 'let ref mut indent_settings = indent_settings.clone();\n    if again { indent_settings.align_first = true; }')],
  'let st = meta_rules::IndentSettings { indent: 3, align_first: false, tab_spaces: 4 }; let s = syntax("1 a = .l+(\\"x\\")").unwrap(); let p = parse_with_indent(&s, "     x", &mut vec![], &st).is_ok(); let q = parse_with_indent(&s, "     x", &mut vec![], &st).is_ok(); assert_eq!(p, q);',
  'parsing two texts of the same length in a row with an indention of three', 'the second is aligned to its first line'),
S('c23-in-lines', [(M+'rule.rs', '''            &mut Rule::Lines(ref mut l) => {
                l.rule.update_refs(names);''', '''            &mut Rule::Lines(ref mut l) => {
                l.rule.update_refs(if l.indent && names.len() > 4 { &names[names.len() - 4..] } else { names });''')], 'assert!(true)', 'x', 'x'),
S('c24-by-twice', [(M+'separate_by.rs', '''                Err(err) => {
                    err_update(Some(err), &mut opt_error);
                    break;
                }
                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    state
                }
            };
            first = false;''', '''                Err(err) => {
                    err_update(Some(err), &mut opt_error);
                    if !first && self.allow_trail { let _ = self.by.parse(tokens, &state, &read_token, refs, indent_settings); }
                    break;
                }
                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    state
                }
            };
            first = false;''')],
  '''let s = syntax("1 x = [.s?.({[\\",\\" x \\"!\\"] [\\";\\" x \\"?\\"] \\",\\"} \\"a\\")]\\n2 a = x").unwrap(); let t = "a,".repeat(18); let n = std::time::Instant::now(); let _ = parse(&s, &t, &mut vec![]); let e1 = n.elapsed();
  let t2 = "a,".repeat(9); let n = std::time::Instant::now(); let _ = parse(&s, &t2, &mut vec![]); let e2 = n.elapsed(); eprintln!("{:?} {:?}", e1, e2); assert!(e1.as_millis() < 20000);''',
  'x', 'x'),
S('c25-print', [('src/json.rs', '    write(&mut stdout(), data).unwrap();', '    write(&mut stdout(), if data.len() > 64 { &data[..64] } else { data }).unwrap();')],
  'if std::env::args().count() > 1 { let d: Vec<_> = (0..100).map(|_| item(MetaData::Bool(a("x"), true))).collect(); json::print(&d); return; } let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert_eq!(String::from_utf8(o.stdout).unwrap().lines().filter(|l| l.contains("x")).count(), 100);',
  'printing more than 64 items', 'the others are not printed'),
S('c25-syntax-trim', [('src/lib.rs', '            ParseErrorHandler::new(&rules).write(&mut w, range_err).unwrap();', '            ParseErrorHandler::new(rules.trim_start_matches(\'\\u{feff}\')).write(&mut w, range_err).unwrap();')],
  'let g = "\\u{feff}1 a = ["; let e = syntax(g).err().unwrap(); let mut w = vec![]; ParseErrorHandler::new(g).write(&mut w, e).unwrap(); assert_eq!(syntax_errstr(g).err().unwrap(), String::from_utf8(w).unwrap());',
  'a grammar text with an error that begins with a byte order mark', 'the message is about another place'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
