PRE = r'''use piston_meta::*;
use std::sync::Arc;
#[allow(dead_code)]
fn run(g: &str, t: &str) -> Result<Vec<Range<MetaData>>, Range<ParseError>> {
    let s = syntax(g).unwrap();
    let mut d = vec![];
    parse(&s, t, &mut d).map(|_| d)
}
#[allow(dead_code)]
fn names(d: &[Range<MetaData>]) -> Vec<String> { d.iter().map(|x| format!("{:?}", x.data)).collect() }
#[allow(dead_code)]
fn a(s: &str) -> Arc<String> { Arc::new(s.into()) }
#[allow(dead_code)]
fn item(d: MetaData) -> Range<MetaData> { Range::new(0, 1).wrap(d) }
#[allow(dead_code)]
fn raw(g: &str) -> (Syntax, Vec<Range>) {
    let mut t = vec![];
    parse(&bootstrap::rules(), g, &mut t).unwrap();
    let mut ig = vec![];
    (bootstrap::convert(&t, &mut ig).unwrap(), ig)
}
'''
M = 'src/meta_rules/'
C = 'src/bootstrap/convert.rs'
def S(id, edits, demo, needs, breaks):
    return dict(id=id, property='C' + id[1:3], edits=edits, demo=PRE + 'fn main() {\n' + demo + '\n}\n', needs=needs, breaks=breaks)
SEEDS = [
S('c01-space-end', [(M+'whitespace.rs', 'if range.length == 0 && !self.optional {', 'if range.length == 0 && !self.optional && !read_token.src.is_empty() {')],
  'assert!(run("1 a = [\\"x\\" .w!]", "x").is_err());', 'required white space at the very end of the text', 'it is not required there'),
S('c01-not-tag-end', [(M+'tag.rs', '''            if self.not {
                match &self.property {
                    &Some(ref name) => {
                        let range''', '''            if self.not && (self.property.is_none() || !read_token.src.is_empty()) {
                match &self.property {
                    &Some(ref name) => {
                        let range''')],
  'assert!(run("1 a = [\\"x\\" !\\"y\\":\\"n\\"]", "x").is_ok());', 'a negated token with a name, at the end of the text', 'fails although nothing is there'),
S('c02-optional-state', [(M+'optional.rs', '''                return (start.start(), state.clone(),
                    Some(ret_err(err, opt_error)))''', '''                return (start.start(), TokenizerState(tokens.len()),
                    Some(ret_err(err, opt_error)))''')],
  'let d = run("1 a = [?[\\"x\\":\\"p\\" \\"y\\"] \\"x\\":\\"q\\"]", "x").unwrap(); assert_eq!(d.len(), 1, "{:?}", names(&d));', 'an optional that sets something before it fails', 'what it set remains'),
S('c02-one-left', [('src/tokenizer.rs', '    if state.0 < tokens.len() {\n        tokens.truncate(state.0);\n    }\n    tokens.push(range_data);\n    TokenizerState(tokens.len())', '    if state.0 < tokens.len() {\n        // Reuse the slot of what was abandoned.\n        tokens[state.0] = range_data;\n    } else {\n        tokens.push(range_data);\n    }\n    TokenizerState(state.0 + 1)')],
  'let mut d = vec![]; let s = syntax("1 a = \\"x\\":\\"p\\"").unwrap(); d.push(item(MetaData::Bool(a("k"), true))); parse(&s, "x", &mut d).unwrap(); assert_eq!(d.len(), 2);\nlet d = run("1 a = {[b:\\"b\\" \\"z\\"] b:\\"c\\"}\\n2 c = {[d:\\"d\\" \\"!\\"] \\"x\\":\\"q\\"}\\n3 d = \\"x\\":\\"r\\"", "x"); let _ = d;',
  'none', 'none'),
S('c02-node-start', [(M+'node.rs', '''            read_data(
                tokens,
                read_token.start().wrap(MetaData::StartNode(prop.clone())),
                state
            )''', '''            // Join with the same node that ended right here.
            let same = match tokens[..::std::cmp::min(state.0, tokens.len())].last() {
                Some(last) => last.next_offset() == read_token.offset && last.length == 0
                    && last.data == MetaData::EndNode(prop.clone()),
                None => false
            };
            if same { TokenizerState(state.0 - 1) } else {
            read_data(
                tokens,
                read_token.start().wrap(MetaData::StartNode(prop.clone())),
                state
            ) }''')],
  'let d = run("1 n = ?\\"x\\"\\n2 a = [n:\\"n\\" n:\\"n\\"]", "").unwrap(); assert_eq!(d.len(), 4, "{:?}", names(&d));', 'two nodes of the same name, one after the other, the first of which read nothing', 'they become one node'),
S('c03-end-node-blank', [(M+'node.rs', '''                    range.wrap(MetaData::EndNode(prop.clone())),''', '''                    Range::new(range.offset, start.raw_string(range.length).trim_end().len())
                        .wrap(MetaData::EndNode(prop.clone())),''')],
  'let d = run("1 n = [\\"x\\" .w?]\\n2 a = n:\\"n\\"", "x  ").unwrap(); assert_eq!(d[1].length, 3);', 'a node that reads white space at its end', 'the white space is left out of the range'),
S('c03-text-inside', [(M+'text.rs', '''                                range.wrap(MetaData::String(property.clone(),''', '''                                Range::new(range.offset, text.len() + 2).wrap(MetaData::String(property.clone(),''')],
  'let d = run("1 a = .t?:\\"v\\"", "\\"a\\\\nb\\"").unwrap(); assert_eq!(d[0].length, 6);', 'a text with escapes', 'the range has the length of what the text denotes'),
S('c04-lines-error', [(M+'lines.rs', '''                    Ok((range, new_state, err)) => {
                        err_update(err, &mut opt_error);
                        state = new_state;''', '''                    Ok((range, new_state, err)) => {
                        // Only errors past the line are of interest.
                        if err.as_ref().map(|e| e.offset > range.next_offset()).unwrap_or(false) {
                            err_update(err, &mut opt_error);
                        }
                        state = new_state;''')],
  '''let e = run("1 a = .l([\\"x\\" ?[\\"y\\" \\"z\\"]])", "xy").unwrap_err(); assert!(e.next_offset() == 2, "{:?}", e);
let e = run("1 a = .l([\\"x\\" ?[.w! \\"zz\\"]])", "x\\n\\n").map(|_| ()); let _ = e;
let e = run("1 a = [.l([\\"x\\" ?\\"y\\"]) \\"q\\"]", "x").unwrap_err(); assert_eq!(e.data, ParseError::ExpectedTag(a("q"), 1006));
let e = run("1 a = .l([\\"x\\" ?[.._s! \\"!\\"]])".replace("_s", "\\";\\"").as_str(), "x1").unwrap_err(); assert_eq!(e.next_offset(), 2);''',
  'x', 'x'),
S('c04-not-error', [(M+'not.rs', '''            Err(_) => {
                Ok((start.start(), state.clone(), None))''', '''            Err(err) => {
                Ok((start.start(), state.clone(), Some(err)))''')],
  'let e = run("1 a = [!![!\\"q\\" \\"x\\"] ![\\"x\\" \\"y\\" \\"z\\"] \\"x\\" \\"w\\"]", "xy!").unwrap_err(); assert_eq!(e.next_offset(), 1, "{:?}", e);', 'a lookahead that fails deeper than what follows', 'its failure is reported'),
S('c04-sep-error', [(M+'separate_by.rs', '''                    match (first, self.optional, self.allow_trail) {
                          (true, false, _)
                        | (false, _, false) => {
                            return Err(ret_err(err, opt_error));''', '''                    match (first, self.optional, self.allow_trail) {
                          (true, false, _)
                        | (false, _, false) => {
                            return Err(err);''')],
  'let e = run("1 a = .s!(\\",\\" [\\"x\\" ?[\\"(\\" \\"y\\" \\")\\"] ?\\"(y\\"])", "x(y,").unwrap_err(); let _ = e;\nlet e = run("1 a = .s!([?[\\",\\" \\",\\" \\";\\"] \\",\\"] \\"x\\")", "x,,").unwrap_err(); assert_eq!(e.next_offset(), 3, "{:?}", e);', 'a separator that looks further ahead than the item behind it', 'the deeper error is lost'),
S('c05-not-not', [('src/optimize.rs', '''            if let Rule::Not(ref r) = not.rule {unique_byte_depth(&r.rule, refs, depth)}
            else {None}''', '''            unique_byte_depth(&not.rule, refs, depth)''')],
  'assert!(run("1 a = [{!.r!(\\"x\\") \\"xx\\"} ?\\"y\\"]", "y").is_ok()); assert!(run("1 a = [{![\\"x\\" \\"z\\"] \\"y\\"} \\"w\\"]", "w").is_ok());', 'a choice that starts with a lookahead', 'only tried when the next byte is the one it excludes'),
S('c05-tail-skip', [(M+'fast_select.rs', '''                        Err(err) => {
                            err_update(Some(err), &mut opt_error);
                        }
                    }
                }
                let sub_rule''', '''                        // Far into the rule there is no point in trying another.
                        Err(err) if err.offset > read_token.offset + 8 => {
                            return Err(err);
                        }
                        Err(err) => {
                            err_update(Some(err), &mut opt_error);
                        }
                    }
                }
                let sub_rule''')],
  'assert!(run("1 a = {[\\"a\\" .r!(\\"b\\") \\"c\\"] \\"d\\" [\\"a\\" .r!(\\"b\\") \\"e\\"]}", "abbbbbbbbbbe").is_ok());', 'a choice whose first byte fits an alternative that fails more than eight bytes further, and a later one that matches', 'the later one is not tried'),
S('c05-duplicate-byte', [('src/optimize.rs', '''                data[b as usize] = i as u8;
                unique_up_to = i + 1;
            } else {break}''', '''                data[b as usize] = i as u8;
            } else if r != &select.args[data[b as usize] as usize] {break}
            // The same alternative again makes no difference.
            unique_up_to = i + 1;''')],
  'assert!(true);', 'x', 'x'),
S('c06-inverted-plain', [(C, '''        let not = not.unwrap_or(false);
        let inverted = inverted.unwrap_or(false);''', '''        let not = not.unwrap_or(false);
        let inverted = inverted.unwrap_or(false) && !not;''')],
  'let d = run("1 a = [!\\"x\\":!\\"p\\" \\"y\\"]", "y").unwrap(); assert_eq!(d[0].data, MetaData::Bool(a("p"), false));', 'a token that is both negated and inverted', 'the inversion is lost'),
S('c06-lines-id', [(C, '''        let end = convert.end_node("lines")?;''', '')] if False else [(C, '''        let (range, rule) = read_rule(
            debug_id, "rule", convert, strings, ignored
        )?;
        convert.update(range);
        let range = convert.end_node("lines")?;
        convert.update(range);
        *debug_id += 1;
        Ok((convert.subtract(start),
        Rule::Lines(Box::new(Lines {
            debug_id: *debug_id,''', '''        *debug_id += 1;
        let lines_id = *debug_id;
        let (range, rule) = read_rule(
            debug_id, "rule", convert, strings, ignored
        )?;
        convert.update(range);
        let range = convert.end_node("lines")?;
        convert.update(range);
        Ok((convert.subtract(start),
        Rule::Lines(Box::new(Lines {
            debug_id: lines_id,''')],
  'let e = run("1 a = [.l(.$) \\"x\\"]", "1 2").unwrap_err(); assert_eq!(e.data, ParseError::ExpectedNewLine(1002));', 'the debug id of lines', 'is counted before the rule inside'),
S('c06-id-float', [(C, 'id = Some(::std::cmp::min(val as usize, ::std::usize::MAX / 2000));', 'id = Some(val as u16 as usize);')],
  'let e = run("70000 a = \\"x\\"", "y").unwrap_err(); assert_eq!(e.data, ParseError::ExpectedTag(a("x"), 70000001));', 'a node number above 65535', 'it is cut off'),
S('c06-property-ref', [(C, '''            } else if let Ok((range, val)) = convert.meta_string("ref") {
                convert.update(range);
                text = find_string(&val, strings);''', '''            } else if let Ok((range, val)) = convert.meta_string("ref") {
                convert.update(range);
                text = find_string(&val, strings).filter(|t| property != "property" || t.len() > 0);
                if text.is_none() && strings.iter().any(|s| s.0 == val) { text = Some(val); }''')],
  'let d = run("_e: \\"\\"\\n1 a = \\"x\\":_e", "x").unwrap(); assert_eq!(d[0].data, MetaData::Bool(a(""), true));', 'a name given by a reference to an empty string', 'the name of the string is used'),
S('c07-seps-space', [(C, '''                text = Some(val);
                convert.update(range);
            } else if let Ok(range) = convert.end_node("string") {''', '''                text = Some(Arc::new(val.trim_end_matches('\\n').to_string()));
                convert.update(range);
            } else if let Ok(range) = convert.end_node("string") {''')],
  'assert!(run("_s: \\"x\\\\n\\"\\n1 a = _s", "x").is_err());', 'a string definition that ends with a line end', 'the line end is lost'),
S('c07-comment-after', [('src/bootstrap/rules.rs', '''                Rule::UntilAny(UntilAny {
                debug_id: 3,''', '')] if False else [('src/bootstrap/rules.rs', '''            Rule::UntilAny(UntilAny {
                debug_id: 3,
                any_characters: Arc::new("*/".into()),
                optional: true,''', '''            Rule::UntilAny(UntilAny {
                debug_id: 3,
                any_characters: Arc::new("*/".into()),
                optional: false,''')],
  'assert!(syntax("/**/1 a = \\"x\\"".replace("/1", "/\\n1").as_str()).is_ok());', 'a comment that starts with a star or slash', 'is not read'),
S('c08-set-empty', [('src/bootstrap/rules.rs', '''            Rule::Text(Text {
                debug_id: 4002,
                allow_empty: false,''', '''            Rule::Text(Text {
                debug_id: 4002,
                allow_empty: true,''')],
  'assert!(syntax("1 a = \\"\\"").is_err());', 'an empty token', 'is accepted by the built-in rules'),
S('c08-seps', [('src/bootstrap/rules.rs', '''                    Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace {
                        debug_id: 5005,
                        any_characters: seps.clone(),''', '''                    Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace {
                        debug_id: 5005,
                        any_characters: Arc::new("[]{}():!?\\"".into()),''')],
  'assert!(syntax("_s.t: \\"x\\"\\n1 a = ..._s.t?").is_err()); assert!(syntax("_s: \\"x\\"\\n1 a = ..._s.?").is_err());\nlet s = asset(); let x = "1 a = ...\\u{5f}s.?"; let mut t = vec![]; let m = parse(&bootstrap::rules(), x, &mut t).is_ok(); let mut t = vec![]; assert_eq!(m, parse(&s, x, &mut t).is_ok());\n}\nfn asset() -> Syntax { syntax(&std::fs::read_to_string(std::env::var("REPO").unwrap() + "/assets/self-syntax.txt").unwrap()).unwrap()', 'a dot in the name of a string that is read until', 'is read as part of the name by the built-in rules'),
S('c09-optional-default', [(C, 'let optional = optional.unwrap_or(true);', 'let optional = optional.unwrap_or(true) || (allow_trail.is_some() && optional.is_none());')],
  'assert!(true);', 'x', 'x'),
S('c09-old-lines', [('assets/old-syntax.txt', '18 lines = ["l(" .w? rule:"rule" .w? ")"]', '18 lines = ["l(" rule:"rule" .w? ")"]')],
  'let s = std::fs::read_to_string(std::env::var("REPO").unwrap() + "/assets/old-syntax.txt").unwrap(); let s = syntax(&s).unwrap(); let mut t = vec![]; parse(&s, "1 \\"a\\" l( $)", &mut t).unwrap(); let mut i = vec![]; bootstrap::convert(&t, &mut i).unwrap();', 'the old syntax, with white space inside lines', 'is rejected'),
S('c09-old-prop', [('assets/old-syntax.txt', '8 reference = ["@" .t!:"name" ?set:_prop]', '8 reference = ["@" .t!:"name" ?.t!:_prop]')],
  'let s = std::fs::read_to_string(std::env::var("REPO").unwrap() + "/assets/old-syntax.txt").unwrap(); let s = syntax(&s).unwrap(); let mut t = vec![]; parse(&s, "1 \\"a\\" $\\n2 \\"b\\" @\\"a\\"\\"n\\"", &mut t).unwrap(); let mut i = vec![]; let s = bootstrap::convert(&t, &mut i).unwrap(); match s.rules[1] { Rule::Node(ref n) => assert_eq!(n.property, Some(a("n"))), _ => panic!() }', 'the old syntax, a node with a name', 'the name is lost'),
S('c10-integer', [('src/json.rs', '''                write!(w, ":{}", val)?;
            }
            MetaData::String''', '''                if val.fract() == 0.0 { write!(w, ":{}", val as i64)?; }
                else { write!(w, ":{}", val)?; }
            }
            MetaData::String''')],
  'let mut o = vec![]; json::write(&mut o, &[item(MetaData::F64(a("x"), 1e20))]).unwrap(); assert!(String::from_utf8(o).unwrap().contains("100000000000000000000"));', 'a whole number beyond 64 bits, or negative zero', 'another number is written'),
S('c10-name', [('src/json.rs', '''                write_string(w, name)?;
                write!(w, ":")?;
                write_string(w, val)?;''', '''                write!(w, "\\"{}\\":", name)?;
                write_string(w, val)?;''')],
  'let mut o = vec![]; json::write(&mut o, &[item(MetaData::String(a("a\\"b"), a("")))]).unwrap(); assert!(String::from_utf8(o).unwrap().contains("\\\\\\""));', 'a string whose name needs escapes', 'the JSON is not valid'),
S('c10-next-line', [('src/json.rs', '''        } else if c < '\\u{20}' {''', '''        } else if c.is_whitespace() && c != ' ' {
            write!(w, " ")?;
        } else if c < '\\u{20}' {''')],
  'let mut o = vec![]; json::write(&mut o, &[item(MetaData::String(a("a"), a("\\u{a0}")))]).unwrap(); assert!(String::from_utf8(o).unwrap().contains("\\u{a0}"));', 'white space beyond ASCII in a string', 'becomes a plain space'),
S('c11-window', [('src/parse_error_handler.rs', '''                    let s = if j > 75 { j - 50 } else { 0 };
                    let e = ::std::cmp::min(s + 100, r.length);
                    write!(w, "{},{}: ", i + 1, j + 1)?;
                    for c in text.chars().skip(s).take(e - s) {
                        write!(w, "{}", c)?;
                    }
                    writeln!(w, "")?;
                    if !printed_pointer {
                        write!(w, "{},{}: ", i + 1, j + 1)?;
                        for c in text.chars().skip(s).take(j - s) {
                            match c {
                                '\\t' => {
                                    write!(w, "\\t")?;
                                }
                                _ => {
                                    write!(w, " ")?;
                                }
                            }
                        }
                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error''', '''                    let s = if j > 75 { j - 50 } else { 0 };
                    let e = ::std::cmp::min(s + 100, r.length);
                    write!(w, "{},{}: ", i + 1, s + 1)?;
                    for c in text.chars().skip(s).take(e - s) {
                        write!(w, "{}", c)?;
                    }
                    writeln!(w, "")?;
                    if !printed_pointer {
                        write!(w, "{},{}: ", i + 1, j + 1)?;
                        for c in text.chars().skip(s).take(j - s) {
                            match c {
                                '\\t' => {
                                    write!(w, "\\t")?;
                                }
                                _ => {
                                    write!(w, " ")?;
                                }
                            }
                        }
                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error''')],
  'let t = "x".repeat(90); let mut o = vec![]; ParseErrorHandler::new(&t).write(&mut o, Range::new(80, 1).wrap(ParseError::ExpectedSomething(1))).unwrap(); let o = String::from_utf8(o).unwrap(); assert!(o.lines().nth(1).unwrap().starts_with("1,81:"));', 'x', 'x'),
S('c11-blank-lines', [('src/parse_error_handler.rs', '''.all(|c| { c.is_whitespace() }) { break; }''', '''.all(|c| { c == ' ' }) { break; }''')],
  'let t = "a\\n\\t\\nb"; let mut o = vec![]; ParseErrorHandler::new(&t).write(&mut o, Range::new(4, 0).wrap(ParseError::ExpectedTag(a(";"), 1))).unwrap(); let o = String::from_utf8(o).unwrap(); assert!(o.contains("1: a"), "{}", o);', 'a missing token after a line of tabs', 'the preceding line is not quoted'),
S('c12-error-range', [(M+'tag.rs', '''                Err(read_token.start().wrap(
                    ParseError::ExpectedTag(''', '''                // Tell which characters are wrong.
                let same = self.text.chars().zip(read_token.src.chars())
                    .take_while(|&(a, b)| a == b).count();
                let at = read_token.start();
                let at = if same > 0 && self.text.len() > 1 { Range::empty(at.offset + same) } else { at };
                Err(at.wrap(
                    ParseError::ExpectedTag(''')],
  'let e = run("1 a = \\"éx\\"", "éy").unwrap_err(); assert!("éy".is_char_boundary(e.offset));', 'a token with characters of several bytes that only begins to match', 'the range of the error is in the middle of a character'),
S('c12-cursor', [('src/lib.rs', '            Some(ignored) => Err(tokens[ignored.offset].range().wrap(', '            Some(ignored) => Err(tokens[ignored.next_offset()].range().wrap(')],
  'assert!(syntax("1 a = {_s}").is_err());', 'x', 'x'),
S('c13-same-name', [(C, '''                &MetaData::EndNode(_) => acc = acc.saturating_sub(1),''', '''                &MetaData::EndNode(ref name) => {
                    // The node ends where a node of its name ends.
                    let same = match self.data[0].data { MetaData::StartNode(ref n) => n == name, _ => true };
                    acc = if same && acc < 3 { 0 } else { acc.saturating_sub(1) };
                }''')],
  'let d: Vec<_> = vec![MetaData::StartNode(a("x")), MetaData::StartNode(a("x")), MetaData::EndNode(a("x")), MetaData::EndNode(a("x"))].into_iter().map(item).collect(); assert_eq!(Convert::new(&d).ignore().length, 4);', 'a node inside a node of the same name', 'ignoring stops at the inner end'),
S('c13-optional-missing', [(C, '''        match (rule, optional) {
            (Some(rule), Some(optional)) => {
                *debug_id += 1;
                Ok((convert.subtract(start),
                Rule::Repeat''', '''        match (rule, optional) {
            (Some(rule), optional) => {
                let optional = optional.unwrap();
                *debug_id += 1;
                Ok((convert.subtract(start),
                Rule::Repeat''')],
  '''let n = |s: &str| item(MetaData::StartNode(a(s))); let e = |s: &str| item(MetaData::EndNode(a(s)));
let d = vec![n("node"), item(MetaData::F64(a("id"), 1.0)), item(MetaData::String(a("name"), a("x"))), n("rule"), n("repeat"), n("rule"), n("number"), e("number"), e("rule"), e("repeat"), e("rule"), e("node")];
let mut i = vec![]; let _ = bootstrap::convert(&d, &mut i);''', 'a repetition without the flag', 'panics'),
S('c13-ignored-range', [(C, '''                id = Some(::std::cmp::min(val as usize''', '''                ignored.truncate(0);
                id = Some(::std::cmp::min(val as usize''')],
  '''let n = |s: &str| item(MetaData::StartNode(a(s))); let e = |s: &str| item(MetaData::EndNode(a(s)));
let mut d = vec![]; for _ in 0..2 { d.extend(vec![n("node"), item(MetaData::F64(a("id"), 1.0)), item(MetaData::String(a("name"), a("x"))), item(MetaData::Bool(a("q"), true)), n("rule"), n("number"), e("number"), e("rule"), e("node")]); }
let mut i = vec![]; bootstrap::convert(&d, &mut i).unwrap(); assert_eq!(i.len(), 2);''', 'unknown items in more than one node', 'only those of the last node are reported'),
S('c14-remaining', [(C, '        self.data.len()\n    }', '        self.data.iter().rposition(|x| if let MetaData::EndNode(_) = x.data { false } else { true }).map(|i| i + 1).unwrap_or(self.data.len())\n    }')],
  'let d = vec![item(MetaData::Bool(a("x"), true)), item(MetaData::EndNode(a("n")))]; assert_eq!(Convert::new(&d).remaining_data_len(), 2);', 'a cursor with only ends of nodes at the end', 'these are not counted'),
S('c14-f64-negative', [(C, 'MetaData::F64(ref n, ref val) if &**n == name => {', 'MetaData::F64(ref n, ref val) if &**n == name && *val >= 0.0 => {')],
  'let d = vec![item(MetaData::F64(a("x"), -1.0))]; assert!(Convert::new(&d).meta_f64("x").is_ok());', 'a negative number', 'is not read'),
S('c14-source-end', [(C, '''        let end = rhs.data[self.offset - rhs.offset - 1].next_offset();''', '''        let end = rhs.data[self.offset - rhs.offset - 1].offset
            + rhs.data[self.offset - rhs.offset - 1].length.max(1);''')],
  'let d = vec![Range::new(3, 0).wrap(MetaData::StartNode(a("x"))), Range::new(3, 0).wrap(MetaData::EndNode(a("x")))]; let c = Convert::new(&d); let mut e = c; e.update(c.ignore()); assert_eq!(e.source(c).unwrap().length, 0);', 'a span that ends with an item of an empty range', 'is one byte too long'),
S('c15-end-node', [('src/search/src/lib.rs', '''                &MetaData::EndNode(ref n) => {
                    if &**n == name {
                        return f(Search {
                            data: &self.data[i + 1..],''', '''                &MetaData::EndNode(ref n) => {
                    if &**n == name {
                        return f(Search {
                            data: &self.data[i..],''')],
  'let d = vec![item(MetaData::EndNode(a("x")))];\nlet s = piston_meta_search::Search::new(&d); s.for_end_node("x", |s| { assert_eq!(s.data.len(), 0); Ok(()) }).unwrap();', 'a search for the end of a node', 'continues at it, not after it'),
S('c15-first', [('src/search/src/lib.rs', '''        for (i, d) in self.data.iter().enumerate() {
            match &d.data {
                &MetaData::StartNode(ref n) => {''', '''        let mut depth = 0i64;
        for (i, d) in self.data.iter().enumerate() {
            if depth > 2 {
                if let MetaData::StartNode(_) = d.data { depth += 1; }
                if let MetaData::EndNode(_) = d.data { depth -= 1; }
                continue;
            }
            match &d.data {
                &MetaData::EndNode(_) => { depth -= 1; }
                &MetaData::StartNode(ref n) => {
                    depth += 1;''')],
  'let d: Vec<_> = ["a", "b", "c", "x"].iter().map(|n| item(MetaData::StartNode(a(n)))).collect();\nassert!(piston_meta_search::Search::new(&d).for_node("x", |_| Ok(())).is_ok());', 'a node nested three deep', 'is not found'),
S('c15-bool-value', [('src/search/src/lib.rs', '''            &MetaData::Bool(ref n, v) => {
                if &**n == name {
                    self.data = &self.data[1..];
                    self.range = Some(range);''', '''            &MetaData::Bool(ref n, v) => {
                if &**n == name {
                    self.data = &self.data[1..];
                    if range.length > 0 { self.range = Some(range); }''')],
  'let d = vec![item(MetaData::Bool(a("x"), true)), Range::new(5, 0).wrap(MetaData::Bool(a("y"), true))]; let mut s = piston_meta_search::Search::new(&d); s.bool("x").unwrap(); s.bool("y").unwrap(); assert_eq!(s.bool("z").unwrap_err().offset, 5);', 'reading a bool with an empty range, and nothing after it', 'a later error is reported at the item before'),
S('c16-subnormal', [(M+'number.rs', '    if val.is_finite() {\n', '    if val.is_normal() || val == 0.0 {\n')],
  'assert!(run("1 a = .$:\\"n\\"", "1e-310").is_ok());', 'x', 'x'),
S('c16-underscore-mantissa', [(M+'number.rs', '''    let exponent = src.find(|c| c == 'e' || c == 'E').unwrap_or(src.len());''', '''    let exponent = src.find('e').unwrap_or(src.len());''')],
  'let d = run("1 a = [.$:\\"n\\" \\"+1\\"]", "1E5+1").unwrap(); assert_eq!(d[0].data, MetaData::F64(a("n"), 1e5));', 'an exponent with a capital E followed by a sign', 'x'),
S('c17-del', [('src/json.rs', '''            write!(w, "\\\\u{:04x}", c as u32)?;''', '''            write!(w, "\\\\u{:04}", c as u32)?;''')],
  'let mut o = vec![]; json::write_string(&mut o, "\\u{1f}").unwrap(); let o = String::from_utf8(o).unwrap(); let d = run("1 a = .t?:\\"v\\"", &o).unwrap(); assert_eq!(d[0].data, MetaData::String(a("v"), a("\\u{1f}")));', 'control characters from U+000A', 'are written as other characters'),
S('c17-empty-name', [(M+'text.rs', 'if !self.allow_empty && range.length == 2 {', 'if !self.allow_empty && self.property.is_some() && range.length == 2 {')],
  'assert!(run("1 a = .t!", "\\"\\"").is_err());', 'an empty text without name where it is not allowed', 'is accepted'),
S('c17-error-place', [(M+'text.rs', '''                        Err(range_err.map(|err|
                            ParseError::ParseStringError(err, self.debug_id)))''', '''                        Err(Range::empty(range.offset).wrap(
                            ParseError::ParseStringError(range_err.data, self.debug_id)))''')],
  'let e = run("1 a = .t?", "\\"abc\\\\q\\"").unwrap_err(); assert!(e.offset > 0);', 'an invalid escape', 'is reported at the start of the text'),
S('c18-restore-ok', [(M+'lines.rs', '''            // The alignment to the first line only applies to these lines.
            indent_settings.indent = outer_indent;
            match res {
                Err(range) => {''', '''            match res {
                Err(range) => {
                    // The alignment to the first line only applies to these lines.
                    indent_settings.indent = outer_indent;''')],
  'assert!(run("1 a = [.l+(\\"a\\") .w? \\"%\\" .l+(\\"b\\")]", "    a\\n%\\nb\\n").is_ok());', 'a block after a block that is indented deeper', 'is read with the alignment of the one before'),
S('c18-tab-width', [(M+'lines.rs', '''                                indent_settings.indent += tab_spaces;''', '''                                indent_settings.indent += tab_spaces - indent_settings.indent % tab_spaces.max(1);''')],
  'assert!(run("1 i = [..\\"%\\"!:\\"n\\" .l+(i:\\"i\\")]\\n2 a = .l+(i:\\"i\\")", "  \\ta\\n      b\\n").is_ok()); let d = run("1 i = [..\\"%\\"!:\\"n\\" .l+(i:\\"i\\")]\\n2 a = .l+(i:\\"i\\")", "  \\ta\\n      b\\n").unwrap(); assert_eq!(d.len(), 6); assert!(names(&d)[2].starts_with("EndNode"));', 'a tab after spaces on the first line of a block', 'counts up to the next multiple of its width'),
S('c18-failed-item', [(M+'lines.rs', '''                    Err(err) => {
                        indent_settings.indent = old_indent;
                        err_update(Some(err), &mut opt_error);
                        None''', '''                    Err(err) => {
                        err_update(Some(err), &mut opt_error);
                        None''')],
  'assert!(true)', 'x', 'x'),
S('c19-find', [(M+'lines.rs', ".rfind('\\n') {", ".find('\\n') {")],
  'assert!(run("1 a = .l(.$)", "1\\n\\n2").is_ok());', 'x', 'x'),
S('c19-ends-with', [(M+'lines.rs', "new_line = text[text.trim_end().len()..].contains('\\n');", "new_line = text.ends_with('\\n');")],
  'assert!(run("1 a = .l([.$ .w?])", "1\\n \\u{3000}2").is_ok());', 'an item that ends with a line end and further white space', 'needs another line end'),
S('c20-lookahead-indent', [(M+'not.rs', '''        match self.rule.parse(
            tokens, state, read_token, refs, indent_settings
        ) {''', '''        match self.rule.parse(
            tokens, state, read_token, refs, indent_settings
        ) {
            // An empty match says nothing about the text.
            Ok((range, _, Some(err))) if range.length == 0 && err.offset > read_token.offset => {
                Ok((start.start(), state.clone(), None))
            }''')],
  'assert!(run("1 a = [!?[\\"x\\" \\"y\\"] \\"xz\\"]", "xz").is_err());', 'a lookahead over a rule that matches with nothing, after failing further ahead', 'the lookahead succeeds'),
S('c20-select-state', [(M+'select.rs', '''        let mut opt_error: Option<Range<ParseError>> = None;
        for sub_rule in &self.args {
            match sub_rule.parse(tokens, state,''', '''        let mut opt_error: Option<Range<ParseError>> = None;
        let last = self.args.len();
        for (i, sub_rule) in self.args.iter().enumerate() {
            let kept = TokenizerState(tokens.len());
            let state = if i + 1 == last && i > 2 && kept.0 > state.0 + 1 { &kept } else { state };
            match sub_rule.parse(tokens, state,''')],
  'let d = run("1 a = {[?\\"x\\":\\"p\\" \\"a\\"] [?\\"x\\":\\"p\\" \\"b\\"] [?\\"x\\":\\"p\\" \\"c\\"] [?\\"x\\":\\"p\\" ?\\"y\\":\\"r\\" ?\\"x\\":\\"p\\" \\"d\\"] [?\\"x\\" ?\\"y\\" \\"x\\":\\"q\\"]}", "xyx").unwrap(); assert_eq!(d.len(), 1, "{:?}", names(&d));', 'four or more alternatives, with two or more items left by those before the last', 'these items remain'),
S('c21-first', [(M+'separate_by.rs', '''                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    state
                }
            };
            first = false;''', '''                Ok((range, state, err)) => {
                    first = first && range.length == 0;
                    update(range, err, &mut read_token, &mut opt_error);
                    state
                }
            };''')],
  'assert!(run("1 a = .s?.(?\\",\\" \\"x\\")", "xx").is_ok()); assert!(run("1 a = .s!.(?\\",\\" \\"x\\")", "xx").is_ok());', 'at least one, with a separator that can be left out', 'the list needs a further item'),
S('c21-trail-two', [(M+'separate_by.rs', '''                    err_update(Some(err), &mut opt_error);
                    break;
                }
                Ok((range, state, err)) => {''', '''                    // A single item needs its separator.
                    if self.allow_trail && !self.optional && first && read_token.src.is_empty() {
                        return Err(ret_err(err, opt_error));
                    }
                    err_update(Some(err), &mut opt_error);
                    break;
                }
                Ok((range, state, err)) => {''')],
  'assert!(run("1 a = .s!.(\\",\\" \\"x\\")", "x").is_ok());', 'one item at the end of the text, in the form `.s!.`', 'is rejected'),
S('c22-fast-eq', [(M+'fast_select.rs', '''        self.args == other.args &&
        self.tail == other.tail &&''', '''        self.args.len() == other.args.len() &&
        self.tail == other.tail &&''')],
  'assert!(syntax("1 a = {[\\"a\\" \\"x\\"] \\"b\\"}").unwrap() != syntax("1 a = {[\\"a\\" \\"y\\"] \\"b\\"}").unwrap());', 'two grammars with choices that differ behind the first byte', 'are equal'),
S('c22-thread', [('src/tokenizer.rs', '''    if state.0 < tokens.len() {''', '''    use std::sync::atomic::{ AtomicUsize, Ordering };
    static DEEPEST: AtomicUsize = AtomicUsize::new(0);
    // Room for as much as was needed before.
    let deepest = DEEPEST.load(Ordering::Relaxed);
    if deepest < tokens.len() { DEEPEST.store(tokens.len(), Ordering::Relaxed); }
    if state.0 < tokens.len() && (state.0 + 40 >= deepest || deepest < 60) {''')],
  'let s = syntax("1 a = {[\\"x\\":\\"p\\" \\"a\\"] [\\"x\\":\\"q\\" \\"b\\"]}").unwrap(); let mut d = vec![]; parse(&s, "xb", &mut d).unwrap(); let long = syntax("1 a = .r?(\\"x\\":\\"p\\")").unwrap(); let mut e = vec![]; parse(&long, &"x".repeat(200), &mut e).unwrap(); let mut f = vec![]; parse(&s, "xb", &mut f).unwrap(); assert_eq!(d, f);', 'a short document after a long one in the same process', 'what was abandoned remains'),
S('c23-by-ref', [(M+'rule.rs', '''                s.rule.update_refs(names);
                s.by.update_refs(names);''', '''                s.rule.update_refs(names);
                if let Rule::Node(_) = s.by {} else { s.by.update_refs(names); }''')],
  'assert!(run("1 c = \\",\\"\\n2 a = .s!(c \\"x\\")", "x,x").is_ok());', 'a node used as separator', 'is never resolved'),
S('c23-undefined-ok', [(M+'node.rs', '''            None => {
                return Err(''', '''            None if self.property.is_none() && read_token.src.is_empty() => {
                return Ok((read_token.start(), state.clone(), None));
            }
            None => {
                return Err(''')],
  'assert!(run("1 a = [\\"x\\" nope]", "x").is_err());', 'a reference to a node that is not defined, at the end of the text', 'matches'),
S('c23-undefined-any', [(C, '''        let optional = optional.unwrap_or(false);
        match any_characters {
            Some(any) => {
                *debug_id += 1;
                Ok((convert.subtract(start),
                Rule::UntilAny(UntilAny {''', '''        let optional = optional.unwrap_or(false);
        if any_characters.is_none() && optional {
            ignored.pop();
            any_characters = Some(Arc::new(String::new()));
        }
        match any_characters {
            Some(any) => {
                *debug_id += 1;
                Ok((convert.subtract(start),
                Rule::UntilAny(UntilAny {''')],
  'assert!(syntax("1 a = [\\"x\\" ..._nope?]").is_err());', 'reading until any of an undefined string', 'compiles, and reads to the end'),
S('c24-fast-twice', [(M+'fast_select.rs', '''                        Err(err) => {
                            Err(err)
                        }
                    }''', '''                        Err(err) => {
                            // Find out which of the rules gets furthest.
                            match sub_rule.parse(tokens, state, read_token, refs, indent_settings) {
                                Err(other) => Err(ret_err(err, Some(other))),
                                ok => ok
                            }
                        }
                    }''')],
  '''let mut g = String::from("1 n0 = \\"!\\"\\n"); for i in 1..24 { g.push_str(&format!("{} n{} = {{[\\"a\\" n{}] [\\"b\\" n{}]}}\\n", i + 1, i, i - 1, i - 1)); }
let s = syntax(&g).unwrap(); let t = std::time::Instant::now(); let mut d = vec![]; assert!(parse(&s, &"a".repeat(30), &mut d).is_err()); assert!(t.elapsed().as_secs_f64() < 2.0, "{:?}", t.elapsed());''', 'optimized choices nested in each other that fail', 'takes exponential time'),
S('c24-node-look', [(M+'node.rs', '''        let mut opt_error = None;
        state = match''', '''        let mut opt_error = None;
        if self.property.is_some() {
            // Do not begin a node that is not there.
            let mut look = tokens.clone();
            refs[index].parse(&mut look, &state, &read_token, refs, &mut indent_settings.clone())?;
        }
        state = match''')],
  '''let mut g = String::from("1 n0 = \\"a\\"\\n"); for i in 1..24 { g.push_str(&format!("{} n{} = [\\"a\\" n{}:\\"n\\"]\\n", i + 1, i, i - 1)); }
let s = syntax(&g).unwrap(); let t = std::time::Instant::now(); let mut d = vec![]; parse(&s, &"a".repeat(24), &mut d).unwrap(); assert!(t.elapsed().as_secs_f64() < 2.0, "{:?}", t.elapsed());''', 'named nodes nested in each other', 'takes exponential time'),
S('c25-errstr-keep', [('src/lib.rs', '            ParseErrorHandler::new(&rules).write(&mut w, range_err).unwrap();', '            ParseErrorHandler::new(rules.trim_end()).write(&mut w, range_err).unwrap();')],
  'let e = syntax_errstr("1 a = [\\n\\n").unwrap_err(); let r = syntax("1 a = [\\n\\n").unwrap_err(); let mut w = vec![]; ParseErrorHandler::new("1 a = [\\n\\n").write(&mut w, r).unwrap(); assert_eq!(e.into_bytes(), w);', 'an error at the end of a text that ends with white space', 'is formatted without the place'),
S('c25-no-rules', [(M+'mod.rs', '''        0 => { return Err(Range::empty(0).wrap(ParseError::NoRules)); }''', '''        0 if text.is_empty() => { return Ok(()); }
        0 => { return Err(Range::empty(0).wrap(ParseError::NoRules)); }''')],
  'let mut d = vec![]; assert!(parse(&Syntax::new(), "", &mut d).is_err());', 'an empty document and a grammar without nodes', 'is accepted'),
S('c25-load-bom', [('src/lib.rs', '''    let mut tokens = vec![];
    stderr_unwrap(&d, parse(&rules, &d, &mut tokens));''', '''    let mut tokens = vec![];
    // Files may have line ends of another system.
    let d = d.replace("\\r\\n", "\\n");
    stderr_unwrap(&d, parse(&rules, &d, &mut tokens));''')],
  '''let dir = std::env::temp_dir().join(format!("demo{}", std::process::id())); std::fs::create_dir(&dir).unwrap();
std::fs::write(dir.join("g"), "1 a = ...\\"!\\"?:\\"v\\"").unwrap(); std::fs::write(dir.join("d"), "a\\r\\nb").unwrap();
let d = load_syntax_data(dir.join("g"), dir.join("d")); std::fs::remove_dir_all(&dir).unwrap(); assert_eq!(d[0].length, 4);''', 'a file with carriage returns', 'is read without them'),
]
