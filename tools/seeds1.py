PRE = r'''use piston_meta::*;
#[allow(dead_code)]
fn run(g: &str, t: &str) -> Result<Vec<Range<MetaData>>, Range<ParseError>> {
    let s = syntax(g).unwrap();
    let mut d = vec![];
    parse(&s, t, &mut d).map(|_| d)
}
#[allow(dead_code)]
fn names(d: &[Range<MetaData>]) -> Vec<String> { d.iter().map(|x| format!("{:?}", x.data)).collect() }
'''
M = 'src/meta_rules/'
SEEDS = [
dict(id='c01-not-empty-match', property='C01',
 edits=[(M+'not.rs', '            Ok((range, _, _)) => {', '            // Nothing was read, so there is nothing that is not expected.\n            Ok((range, _, _)) if range.length == 0 => {\n                Ok((start.start(), state.clone(), None))\n            }\n            Ok((range, _, _)) => {')],
 demo=PRE+r'''fn main() {
    assert!(run("1 a = [!{\"x\" ?\"y\"} \"z\"]", "z").is_err());
    assert!(run("1 a = [!.w? \"z\"]", "z").is_err());
}''', needs='a negative lookahead over a rule that matches without reading anything', breaks='such a lookahead succeeds instead of failing, so documents are accepted that the grammar excludes'),
dict(id='c01-until-end', property='C01',
 edits=[(M+'until_any.rs', 'if range.length == 0 && !self.optional {', 'if range.length == 0 && (!self.optional || (self.property.is_some() && read_token.src.is_empty())) {')],
 demo=PRE+r'''fn main() {
    assert!(run("1 a = [\"k=\" ...\";\"?:\"v\"]", "k=").is_ok());
}''', needs='a read-until rule with a property that may be empty, at the very end of the text', breaks='an empty value at the end of the document is rejected'),
dict(id='c02-trailing-data', property='C02',
 edits=[(M+'separate_by.rs', '''            state = match self.by.parse(
                tokens, &state, &read_token, refs, indent_settings
            ) {''', '''            before = state.clone();
            state = match self.by.parse(
                tokens, &state, &read_token, refs, indent_settings
            ) {'''),
  (M+'separate_by.rs','        let mut first = true;\n','        let mut first = true;\n        let mut before = state.clone();\n'),
  (M+'separate_by.rs','''                            err_update(Some(err), &mut opt_error);
                            break;
                        }
                    }''','''                            err_update(Some(err), &mut opt_error);
                            // The last item is the end of the list.
                            state = before;
                            break;
                        }
                    }''')],
 demo=PRE+r'''fn main() {
    let d = run("1 a = .s?.({\",\":\"comma\" \";\":!\"comma\"} \"x\":\"x\")", "x,x;").unwrap();
    assert_eq!(d.len(), 4, "{:?}", names(&d));
}''', needs='a separated list that allows a trailing separator, whose separator sets a property, and a document with one', breaks='the data of the trailing separator is lost'),
dict(id='c02-not-inverted', property='C02',
 edits=[(M+'tag.rs', '''                        let range = read_token.start();
                        Ok((range, read_data(
                            tokens,
                            range.wrap(
                                MetaData::Bool(name.clone(), !self.inverted)),''', '''                        let range = read_token.start();
                        Ok((range, read_data(
                            tokens,
                            range.wrap(
                                MetaData::Bool(name.clone(), self.inverted != self.not)),''')],
 demo=PRE+r'''fn main() {
    let d = run("1 a = [!\"x\":!\"p\" \"y\"]", "y").unwrap();
    assert_eq!(d[0].data, MetaData::Bool(std::sync::Arc::new("p".into()), false));
    let d = run("1 a = [!\"x\":\"p\" \"y\"]", "y").unwrap();
    assert_eq!(d[0].data, MetaData::Bool(std::sync::Arc::new("p".into()), true));
}''', needs='placeholder', breaks='placeholder'),
dict(id='c03-until-chars', property='C03',
 edits=[(M+'until_any_or_whitespace.rs', '''                Ok((range, read_data(
                    tokens,
                    range.wrap(
                        MetaData::String(property.clone(), Arc::new(text))),''', '''                let length = text.chars().count();
                Ok((range, read_data(
                    tokens,
                    Range::new(range.offset, length).wrap(
                        MetaData::String(property.clone(), Arc::new(text))),''')],
 demo=PRE+r'''fn main() {
    let d = run("1 a = ..\";\"!:\"v\"", "héé").unwrap();
    assert_eq!(d[0].length, 5);
}''', needs='a word with characters of several bytes', breaks='the range of the word counts characters instead of bytes'),
dict(id='c03-end-node-lines', property='C03',
 edits=[(M+'lines.rs', '                        range.offset = offset;\n', '                        range.offset = offset + indent_settings.indent as usize - old_indent as usize - 1;\n                        range.length -= range.offset - offset;\n'),
  ],
 demo=PRE+r'''fn main() { std::process::exit(0) }''', needs='', breaks='x'),
dict(id='c04-repeat-error', property='C04',
 edits=[(M+'repeat.rs', '''                        err_update(Some(err), &mut opt_error);
                        break;''', '''                        // Nothing to report when the rule does not start here.
                        if !first { err_update(Some(err), &mut opt_error); }
                        break;''')],
 demo=PRE+r'''fn main() {
    let e = run("1 a = [\"a\" .r?([\"b\" \"c\"]) \"d\"]", "abd").unwrap_err();
    assert_eq!(e.offset, 2, "{:?}", e);
}''', needs='an optional repetition whose first item fails deeper than what follows', breaks='the error reported is not the deepest one'),
dict(id='c05-sep-trail', property='C05',
 edits=[('src/optimize.rs', '            if sep.optional {None}\n', '            if sep.optional && !sep.allow_trail {None}\n')],
 demo=PRE+r'''fn main() {
    let g = "1 a = [\"<\" {.s?.(\",\" \"x\") \"y\"} \">\"]";
    assert!(run(g, "<>").is_ok());
}''', needs='a choice with a possibly empty list with trailing separator in it, on a text where the list is empty', breaks='the optimized choice rejects what the list matches with nothing'),
dict(id='c05-repeat-not', property='C05',
 edits=[('src/optimize.rs', '''            if let Rule::Not(ref r) = not.rule {unique_byte_depth(&r.rule, refs, depth)}
            else {None}''', '''            match not.rule {
                Rule::Not(ref r) => unique_byte_depth(&r.rule, refs, depth),
                Rule::Tag(ref tag) if tag.not => tag.text.bytes().next(),
                _ => None
            }''')],
 demo=PRE+r'''fn main() {
    // `!_e` where `_e` is matched negatively twice.
    let g = "1 b = [!{!\"ab\"} ..\"]\"!]\n2 a = {b \"c\" \"d\"}";
    assert!(run(g, "abx").is_ok());
}''', needs='x', breaks='x'),
dict(id='c06-allow-trail', property='C06',
 edits=[('src/bootstrap/convert.rs', '                    allow_trail: allow_trail,', '                    allow_trail: allow_trail && optional,')],
 demo=PRE+r'''fn main() {
    assert!(run("1 a = .s!.(\",\" \"x\")", "x,x,").is_ok());
}''', needs='the form `.s!.`', breaks='compiles to a list without trailing separator'),
dict(id='c07-comment-nested', property='C07',
 edits=[('src/bootstrap/rules.rs', '''                                Rule::UntilAny(UntilAny {
                                    debug_id: 12,
                                    any_characters: Arc::new("*/".into()),''', '''                                Rule::UntilAny(UntilAny {
                                    debug_id: 12,
                                    any_characters: Arc::new("*".into()),''')],
 demo=PRE+r'''fn main() {
    let t = "/* a /* b */ c /* d */ e */\n1 a = \"x\"";
    let mut w = vec![];
    assert!(parse(&bootstrap::rules(), t, &mut w).is_ok());
    assert!(syntax(t).is_ok());
}''', needs='two nested comments, one after the other, in a comment', breaks='the second is not seen, so that the comment ends too early'),
dict(id='c07-comment-return', property='C07',
 edits=[('src/bootstrap/rules.rs', 'any_characters: Arc::new("\\n".into()),', 'any_characters: Arc::new("\\r\\n".into()),')],
 demo=PRE+r'''fn main() {
    assert!(syntax("// a \r b\n1 a = \"x\"").is_ok());
}''', needs='a carriage return in the middle of a line comment', breaks='the comment ends there'),
dict(id='c08-until-empty', property='C08',
 edits=[('src/bootstrap/rules.rs', '''            Rule::Node(Node {
                debug_id: 18003,
                name: Arc::new("set_opt".into()),''', '''            Rule::Node(Node {
                debug_id: 18003,
                name: Arc::new("set".into()),''')],
 demo=PRE+r'''fn main() {
    assert!(run("1 a = ...\"\"?:\"all\"", "x y").is_ok());
}''', needs='a grammar that reads until any of no characters', breaks='the built-in rules reject what the self-description accepts'),
dict(id='c10-empty-node', property='C10',
 edits=[('src/json.rs', '''        first = false;
        for _ in 0''', '''        // A node that ended does not change whether something came before.
        if !is_end { first = false; }
        for _ in 0''')],
 demo=PRE+r'''use std::sync::Arc;
fn main() {
    let r = Range::empty(0);
    let n = |s: &str| Arc::new(s.to_string());
    let d = vec![r.wrap(MetaData::StartNode(n("a"))), r.wrap(MetaData::EndNode(n("a"))), r.wrap(MetaData::Bool(n("b"), true))];
    let mut w = vec![];
    json::write(&mut w, &d).unwrap();
    assert!(String::from_utf8(w).unwrap().contains("},"));
}''', needs='a node without content followed by something', breaks='the comma is missing'),
dict(id='c11-lines', property='C11',
 edits=[('src/parse_error_handler.rs', "for line in text.split('\\n') {", "for line in text.lines() {")],
 demo=PRE+r'''fn main() {
    let mut w = vec![];
    ParseErrorHandler::new("a\r\nb").write(&mut w, Range::new(3, 1).wrap(ParseError::ExpectedEnd)).unwrap();
    let s = String::from_utf8(w).unwrap();
    assert!(s.contains("2,1: b"), "{}", s);
    let mut w = vec![];
    ParseErrorHandler::new("a\n").write(&mut w, Range::new(2, 0).wrap(ParseError::ExpectedEnd)).unwrap();
    let s = String::from_utf8(w).unwrap();
    assert!(s.contains("2,1: "), "{}", s);
}''', needs='carriage returns, or an error after the last line end', breaks='the error is shown on the wrong line or not at all'),
dict(id='c12-not-message', property='C12',
 edits=[(M+'not.rs', 'let text = read_token.raw_string(range.length);', '''// Long texts make the error hard to read.
                let text = read_token.raw_string(::std::cmp::min(range.length, 40));''')],
 demo=PRE+r'''fn main() {
    let t = format!("a{}", "é".repeat(30));
    assert!(run("1 a = [!...\";\"! .w?]", &t).is_err());
}''', needs='a lookahead that reads more than 40 bytes with a character of several bytes across the limit', breaks='panics in the middle of a character'),
dict(id='c13-ignored', property='C13',
 edits=[('src/bootstrap/convert.rs', '''                rule = Some(val);
            } else if let Ok((range, val)) = convert.meta_bool("optional") {
                convert.update(range);
                optional = Some(val);
            } else {
                let range = convert.ignore();
                convert.update(range);
                ignored.push(range);''', '''                rule = Some(val);
            } else if let Ok((range, val)) = convert.meta_bool("optional") {
                convert.update(range);
                optional = Some(val);
            } else {
                let range = Range::new(convert.ignore().offset, 1);
                convert.update(range);
                ignored.push(range);''')],
 demo=PRE+r'''use std::sync::Arc;
fn main() {
    let g = "1 a = .r?(\"x\")";
    let mut d = vec![];
    parse(&bootstrap::rules(), g, &mut d).unwrap();
    let n = |s: &str| Arc::new(s.to_string());
    let r = Range::empty(0);
    let at = d.iter().position(|x| x.data == MetaData::StartNode(n("repeat"))).unwrap() + 1;
    d.splice(at..at, vec![r.wrap(MetaData::StartNode(n("note"))), r.wrap(MetaData::Bool(n("optional"), false)), r.wrap(MetaData::EndNode(n("note")))]);
    let mut ignored = vec![];
    bootstrap::convert(&d, &mut ignored).unwrap();
    assert_eq!(ignored, vec![Range::new(at, 3)]);
}''', needs='an unknown node inside a repetition', breaks='its items are skipped one by one, and read if they look familiar'),
dict(id='c14-source', property='C14',
 edits=[('src/bootstrap/convert.rs', 'if rhs.data.len() == 0 || self.offset <= rhs.offset { return None; }', 'if rhs.data.len() == 0 || self.offset == rhs.offset { return None; }')],
 demo=PRE+r'''use std::sync::Arc;
fn main() {
    let n = Arc::new("a".to_string());
    let d = vec![Range::new(0, 1).wrap(MetaData::Bool(n.clone(), true)), Range::new(1, 1).wrap(MetaData::Bool(n, true))];
    let a = Convert::new(&d);
    let mut b = a;
    let (r, _) = b.meta_bool("a").unwrap();
    b.update(r);
    assert_eq!(b.source(a), Some(Range::new(0, 1)));
    assert_eq!(a.source(b), None);
}''', needs='the span from a later cursor back to an earlier one', breaks='panics instead of returning nothing'),
dict(id='c15-range', property='C15',
 edits=[('src/search/src/lib.rs', '''            &MetaData::String(ref n, ref v) => {
                if &**n == name {
                    self.data = &self.data[1..];
                    self.range = Some(range);
                    Ok(v.clone())''', '''            &MetaData::String(ref n, ref v) => {
                self.range = Some(range);
                if &**n == name {
                    self.data = &self.data[1..];
                    Ok(v.clone())''')],
 demo=PRE.replace('#[allow','use piston_meta_search::*;\n#[allow',1)+r'''use std::sync::Arc;
fn main() {
    let n = |s: &str| Arc::new(s.to_string());
    let d = vec![Range::new(3, 2).wrap(MetaData::String(n("a"), n("x"))), Range::new(7, 2).wrap(MetaData::String(n("b"), n("y")))];
    let mut s = Search::new(&d);
    s.string("a").unwrap();
    assert!(s.string("c").is_err());
    let e = s.for_bool("z", true, |_| Ok(())).unwrap_err();
    assert_eq!(e.range(), Range::new(3, 2));
}''', needs='a read of a string with another name that fails, then a search that fails', breaks='the later error points at an item that was never read'),
dict(id='c16-negative-zero', property='C16',
 edits=[(M+'number.rs', 'range.wrap(MetaData::F64(property.clone(), val)),', 'range.wrap(MetaData::F64(property.clone(), val + 0.0)),')],
 demo=PRE+r'''fn main() {
    let d = run("1 a = .$:\"v\"", "-0.0").unwrap();
    match d[0].data { MetaData::F64(_, v) => assert!(v.is_sign_negative()), _ => panic!() }
}''', needs='negative zero', breaks='reads as positive zero'),
dict(id='c17-blank-text', property='C17',
 edits=[(M+'text.rs', 'if !self.allow_empty && range.length == 2 {', 'if !self.allow_empty && read_token.raw_string(range.length)[1..range.length - 1].trim().is_empty() {')],
 demo=PRE+r'''fn main() {
    assert!(run("1 a = .t!:\"v\"", "\" \"").is_ok());
}''', needs='a text of only white space where an empty one is not allowed', breaks='rejected as empty'),
dict(id='c18-increase', property='C18',
 edits=[(M+'lines.rs', '                let old_indent = indent_settings.indent;\n                indent_settings.indent += 1;\n', '                let old_indent = indent_settings.indent;\n                if indent_settings.align_first { indent_settings.indent += 1; }\n')],
 demo=PRE+r'''use piston_meta::meta_rules::IndentSettings;
fn main() {
    let s = syntax("1 item = [..\"%\"!:\"name\" .l+(item:\"item\")]\n2 doc = .l+(item:\"item\")").unwrap();
    let mut d = vec![];
    parse_with_indent(&s, "a\nb", &mut d, &IndentSettings { indent: 0, align_first: false, tab_spaces: 4 }).unwrap();
    let first_end = d.iter().position(|x| if let MetaData::EndNode(_) = x.data { true } else { false }).unwrap();
    assert_eq!(first_end, 2, "b is read inside a");
}''', needs='settings without alignment to the first line', breaks='a following line of the same indention is read as a child'),
dict(id='c19-same-line-indent', property='C19',
 edits=[(M+'lines.rs', '''            match res {
                Err(range) => {
                    let err = range.wrap(
                        ParseError::ExpectedNewLine(self.debug_id));
                    Err(ret_err(err, opt_error))
                }''', '''            match res {
                Err(range) => {
                    let err = range.wrap(
                        ParseError::ExpectedNewLine(self.debug_id));
                    err_update(Some(err), &mut opt_error);
                    // What follows belongs to the outer lines.
                    Ok((Range::new(read_token.offset, range.offset - read_token.offset),
                        state, opt_error))
                }''')],
 demo=PRE+r'''fn main() {
    assert!(run("1 a = [.l+(.$:\"v\") .w! .$:\"v\"]", "1\n2 3").is_err());
}''', needs='indention-sensitive lines with two items on one line, and a rule behind them that reads the rest', breaks='the second item on the line is left to the rule behind instead of an error'),
dict(id='c20-truncate', property='C20',
 edits=[(M+'mod.rs', '                tokens.truncate(s.0);\n', '                if s.0 > start { tokens.truncate(s.0); }\n'),
  (M+'mod.rs', '    let s = TokenizerState(tokens.len());\n', '    let start = tokens.len();\n    let s = TokenizerState(start);\n')],
 demo=PRE+r'''fn main() {
    let d = run("1 a = [?[\"a\":\"a\" \"b\"] \"ac\"]", "ac").unwrap();
    assert_eq!(d, vec![]);
}''', needs='a document that gives no data at all, after an attempt that gave some', breaks='the data of the attempt remains'),
dict(id='c21-empty-separator', property='C21',
 edits=[(M+'separate_by.rs', '''                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    state
                }
            };
            first = false;''', '''                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    // Without a separator the list is at its end.
                    if range.length == 0 && self.optional { break; }
                    state
                }
            };
            first = false;''')],
 demo=PRE+r'''fn main() {
    assert!(run("1 a = .s?.(?\",\" \"x\")", "x,xx").is_ok());
}''', needs='a list of zero or more with a separator that can be left out, where it is', breaks='the list ends at the missing separator'),
dict(id='c22-cache', property='C22',
 edits=[('src/lib.rs', '    let mut tokens = vec![];\n    parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;', '''    lazy_static! {
        // Programs often load the same rules again.
        static ref LAST: ::std::sync::Mutex<Option<((usize, usize), Syntax)>> =
            ::std::sync::Mutex::new(None);
    }
    let key = (rules.as_ptr() as usize, rules.len());
    if let Some((last, ref syntax)) = *LAST.lock().unwrap() {
        if last == key { return Ok(syntax.clone()); }
    }

    let mut tokens = vec![];
    parse(&BOOTSTRAP_RULES, rules, &mut tokens)?;'''),
  ('src/lib.rs', '    let mut ignored_meta_data = vec![];', '    let mut ignored_meta_data = Vec::with_capacity(0);'),
  ('src/lib.rs', '            None => Ok(res.optimize()),', '''            None => {
                let res = res.optimize();
                *LAST.lock().unwrap() = Some((key, res.clone()));
                Ok(res)
            }''')],
 demo=PRE+r'''fn main() {
    let mut t = String::from("1 a = \"x\"");
    let a = syntax(&t).unwrap();
    unsafe { t.as_bytes_mut()[7] = b'y'; }
    let b = syntax(&t).unwrap();
    assert!(a != b);
}''', needs='two grammars of the same length, one after the other at the same address', breaks='the second compiles to the first'),
dict(id='c23-last-string', property='C23',
 edits=[('src/bootstrap/convert.rs', 'strings.iter().find(|&&(ref s, _)|', 'strings.iter().rev().find(|&&(ref s, _)|')],
 demo=PRE+r'''fn main() {
    let s = syntax("_a: \"x\"\n_a: \"y\"\n1 a = ..._a!").unwrap();
    let mut d = vec![];
    assert!(parse(&s, "y", &mut d).is_ok());
}''', needs='a string defined more than once', breaks='the last definition is used instead of the first'),
dict(id='c23-last-node', property='C23',
 edits=[(M+'rule.rs', '                        for (i, r) in names.iter().enumerate() {', '                        for (i, r) in names.iter().enumerate().rev() {')],
 demo=PRE+r'''fn main() {
    assert!(run("1 b = \"x\"\n2 b = \"y\"\n3 a = b", "x").is_ok());
}''', needs='a node defined more than once', breaks='the last definition is used instead of the first'),
dict(id='c24-select-again', property='C24',
 edits=[(M+'select.rs', '            Some(err) => Err(err),', '''            Some(err) => {
                // The last alternative gives the error unless another one went deeper.
                match self.args[self.args.len() - 1].parse(
                    tokens, state, read_token, refs, indent_settings
                ) {
                    Err(last) => if last.next_offset() >= err.next_offset() { Err(last) } else { Err(err) },
                    Ok(_) => Err(err)
                }
            }''')],
 demo=PRE+r'''fn main() {
    let mut g = String::from("1 r = {[\"(\" .w? r \")\"] [\"x\" .w? .w?] [.w! r \"]\"] [.w? .w! \"y\"]}");
    g = g.replace("1 r = {", "1 r = {[.w! \"q\"] [.w! \"z\"] [\"-\" \"z\"] [\"(\" .w? r \"]\"] [.w! \"t\"] ");
    let s = syntax("1 n = {.w! ?.w? [\"(\" .w? n \")\"]}\n2 a = n").unwrap();
    let _ = g;
    let mut d = vec![];
    let t = "(".repeat(22);
    let now = std::time::Instant::now();
    let _ = parse(&s, &t, &mut d);
    let (g2, t2) = ("1 n = {.w! [?\"-\" \"(\" n \")\"]}\n2 a = n", "(".repeat(60));
    let s = syntax(g2).unwrap();
    let done = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = parse(&s, &t2, &mut vec![]); done.0.send(()).unwrap(); });
    assert!(done.1.recv_timeout(std::time::Duration::from_secs(20)).is_ok());
    let _ = now;
}''', needs='choices nested in choices that all fail', breaks='takes exponential time in the nesting'),
dict(id='c25-settings', property='C25',
 edits=[(M+'mod.rs', '    match parse_with_indent(rules, text, tokens, indent_settings) {', '    match parse_with_indent(rules, text, tokens, &IndentSettings {\n        indent: indent_settings.indent, ..IndentSettings::default()\n    }) {')],
 demo=PRE+r'''use piston_meta::meta_rules::IndentSettings;
fn main() {
    let s = syntax("1 a = [\"a\" .l+(\"b\") .l+(\"c\":\"c\")]").unwrap();
    let set = IndentSettings { indent: 0, align_first: false, tab_spaces: 4 };
    let t = "a\n  c";
    let a = parse_with_indent(&s, t, &mut vec![], &set).is_ok();
    let b = parse_errstr_with_indent(&s, t, &mut vec![], &set).is_ok();
    assert_eq!(a, b);
}''', needs='settings other than the indention', breaks='the variant with string errors uses the default settings'),
]
SEEDS = [s for s in SEEDS if s['breaks'] not in ('placeholder', 'x')]
