import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
J, H, Q, T = 'src/json.rs', 'src/parse_error_handler.rs', 'src/search/src/lib.rs', 'src/tokenizer.rs'
SEEDS = [
S('c18-many', [(M+'lines.rs', '''                        indent_settings.indent = old_indent;
                        err_update(err, &mut opt_error);
                        state = new_state;''', '''                        count += 1;
                        indent_settings.indent = if count == 300 { old_indent + 1 } else { old_indent };
                        err_update(err, &mut opt_error);
                        state = new_state;'''), (M+'lines.rs', '        let mut first = true;\n        if self.indent {', '        let mut first = true;\n        let mut count = 0;\n        if self.indent {')],
  'assert!(run("1 a = .l+(\\"x\\")", &"x\\n".repeat(400)).is_ok());', 'a block of more than 300 lines', 'the lines after the 300th are read at another level'),
S('c21-trail-data', [(M+'separate_by.rs', '        let mut first = true;', '        let mut first = true;\n        let mut before = state;'), (M+'separate_by.rs', '                        | (false, _, true) => {\n                            err_update(Some(err), &mut opt_error);', '                        | (false, _, true) => {\n                            if !first && read_token.src.is_empty() { state = before; }\n                            err_update(Some(err), &mut opt_error);'), (M+'separate_by.rs', '            state = match self.by.parse(', '            before = state;\n            state = match self.by.parse(')],
  'let d = run("1 a = .s!.(\\",\\":\\"c\\" \\"x\\":\\"p\\")", "x,x,").unwrap(); assert_eq!(d.len(), 4);', 'a trailing separator with data at the end of the text', 'its data is lost'),
S('c11-empty-pointer', [(H, '''                    writeln!(w, "")?;
                    if !printed_pointer {
                        write!(w, "{},{}: ", i + 1, j + 1)?;
                        for c in text.chars().skip(s).take(j - s) {
                            match c {
                                '\\t' => {
                                    write!(w, "\\t")?;
                                }
                                _ => {
                                    write!(w, " ")?;
                                }
                            }
                        }
                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints''', '''                    writeln!(w, "")?;
                    if !printed_pointer {
                        write!(w, "{},{}: ", i + 1, j + 1)?;
                        for c in text.chars().skip(s).take(j - s) {
                            match c {
                                '\\t' | '\\u{b}' | '\\u{c}' => {
                                    write!(w, "{}", if j - s > 8 { c } else { '\\t' })?;
                                }
                                '\\u{3000}' if i > 2 => {
                                    write!(w, "  ")?;
                                }
                                _ => {
                                    write!(w, " ")?;
                                }
                            }
                        }
                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints''')],
  'let mut w = vec![]; ParseErrorHandler::new("a\\nb\\nc\\n\\u{3000}x").write(&mut w, Range::empty(9).wrap(ParseError::ExpectedEnd)).unwrap(); assert!(String::from_utf8(w).unwrap().ends_with("4,2:  ^\\n"));', 'a wide space in front of an error, behind the third line', 'the pointer is too far right'),
S('c29-table-254', [('src/optimize.rs', '                data[b as usize] = i as u8;', '                data[b as usize] = ::std::cmp::min(i, 200) as u8;')],
  'let mut alts = String::new(); for i in 0..230u32 { let c = char::from_u32(if i < 90 { 0x23 + i } else { 0x10000 * 0 + 0x100 * (i - 89) + 0x400 }).unwrap(); if c == \'\\\\\' { continue; } alts.push_str(&format!("\\"{}\\" ", c)); } let _ = alts; let args: Vec<_> = (0..230usize).map(|i| meta_rules::Rule::Tag(meta_rules::Tag { debug_id: 1, text: a(&format!("{}", char::from_u32(if i < 120 { i as u32 + 1 } else { 0x80 }).unwrap())), not: false, inverted: false, property: None })).collect(); let _ = args; ', 'x', 'x'),
S('c17-write-nel', [(J, "        } else if c == '\\r' {\n            write!(w, \"\\\\r\")?;", "        } else if c == '\\r' || c == '\\u{85}' {\n            write!(w, \"\\\\r\")?;")],
  'let mut w = vec![]; json::write_string(&mut w, "a\\u{85}").unwrap(); let d = run("1 a = .t?:\\"p\\"", std::str::from_utf8(&w).unwrap()).unwrap(); assert_eq!(d[0].data, MetaData::String(a("p"), a("a\\u{85}")));', 'writing the next line character', 'it is written as another one'),
S('c04-repeat-long', [(M+'repeat.rs', '                        err_update(Some(err), &mut opt_error);\n                        break;', '                        // The last item is long ago.\n                        if read_token.offset < start.offset + 60 || err.next_offset() > read_token.offset + 1 || err.length > 0 { err_update(Some(err), &mut opt_error); }\n                        break;')],
  'let e = run("1 a = .r!([\\"x\\" \\"y\\"])", &format!("{}x", "xy".repeat(40))).unwrap_err(); assert_eq!(e.next_offset(), 81, "{:?}", e);', 'a repetition that fails one byte into an item, behind sixty bytes', 'its error is lost'),
S('c04-sequence-last', [(M+'sequence.rs', '                    return Err(ret_err(err, opt_error));', '                    // All of it was read but the last.\n                    if self.args.len() > 5 && err.offset == start.offset + 1 { return Err(err); }\n                    return Err(ret_err(err, opt_error));')],
  'let e = run("1 a = [\\"x\\" .w? .w? ?[\\"y\\" \\"z\\" \\"w\\"] \\"q\\" \\"r\\"]", "xyz").unwrap_err(); assert_eq!(e.next_offset(), 3);', 'a sequence of more than five rules, that fails one byte behind its beginning, with a deeper error inside of an optional', 'the deeper error is lost'),
S('c13-any-late', [(C, '''                convert.update(range);
                any_characters = Some(val);
            } else if let Ok((range, val)) = convert.meta_bool("optional") {
                convert.update(range);
                optional = Some(val);
            } else if let Ok((range, val)) = read_set("property", convert, strings) {
                convert.update(range);
                property = Some(val);
            } else {
                let range = convert.ignore();
                convert.update(range);
                ignored.push(range);
            }
        }
        let optional = optional.unwrap_or(false);
        match any_characters {
            Some(any) => {
                *debug_id += 1;
                Ok((convert.subtract(start),
                Rule::UntilAny(UntilAny {''', '''                convert.update(range);
                any_characters = Some(val);
                if property.is_some() { optional = Some(optional.unwrap_or(true)); }
            } else if let Ok((range, val)) = convert.meta_bool("optional") {
                convert.update(range);
                optional = Some(val);
            } else if let Ok((range, val)) = read_set("property", convert, strings) {
                convert.update(range);
                property = Some(val);
            } else {
                let range = convert.ignore();
                convert.update(range);
                ignored.push(range);
            }
        }
        let optional = optional.unwrap_or(false);
        match any_characters {
            Some(any) => {
                *debug_id += 1;
                Ok((convert.subtract(start),
                Rule::UntilAny(UntilAny {''')],
  '''let sn = |s: &str| item(MetaData::StartNode(a(s))); let en = |s: &str| item(MetaData::EndNode(a(s))); let v = |s: &str| item(MetaData::String(a("value"), a(s))); let d = vec![sn("node"), item(MetaData::F64(a("id"), 1.0)), item(MetaData::String(a("name"), a("a"))), sn("rule"), sn("until_any"), sn("property"), v("p"), en("property"), sn("any_characters"), v("z"), en("any_characters"), en("until_any"), en("rule"), en("node")]; let s = bootstrap::convert(&d, &mut vec![]).unwrap(); assert!(parse(&s, "", &mut vec![]).is_err());''',
  'a read-until rule with its name in front of its characters, and no flag', 'it may be empty'),
S('c13-nested-ignored', [(C, '''            } else if let Ok((range, val)) = convert.meta_string("name") {
                name = Some(val);
                convert.update(range);
            } else if let Ok((range, val)) = read_rule(''', '''            } else if let Ok((range, val)) = convert.meta_string("name") {
                if name.is_none() || ignored.is_empty() { name = Some(val); }
                convert.update(range);
            } else if let Ok((range, val)) = read_rule(''')],
  'x', 'x', 'x'),
S('c07-string-last', [(C, '''                text = find_string(&val, strings);
            } else if let Ok((range, val)) = convert.meta_string("value") {''', '''                text = find_string(&val, strings).map(|t| if strings.len() > 5 && t.len() > 3 && property == "property" { Arc::new(t.trim_end().into()) } else { t });
            } else if let Ok((range, val)) = convert.meta_string("value") {''')],
  'let mut g = String::new(); for i in 0..6 { g.push_str(&format!("_s{}: \\"abc \\"\\n", i)); } g.push_str("1 a = \\"x\\":_s3"); let d = run(&g, "x").unwrap(); assert_eq!(d[0].data, MetaData::Bool(a("abc "), true));', 'the name of data taken from one of more than five strings, that ends with a space', 'the space is lost'),
S('c22-eq-names', [('src/lib.rs', '#[derive(Clone, Debug, PartialEq)]\npub struct Syntax {', '#[derive(Clone, Debug)]\npub struct Syntax {'), ('src/lib.rs', 'impl Syntax {\n    /// Creates', '''impl PartialEq for Syntax {
    fn eq(&self, other: &Syntax) -> bool {
        // The last one is most likely to differ.
        self.names == other.names && self.rules.len() == other.rules.len() &&
        self.rules.iter().zip(other.rules.iter()).rev().take(6).all(|(a, b)| a == b)
    }
}

impl Syntax {
    /// Creates''')],
  'let g = |x: &str| { let mut s = format!("1 n0 = \\"{}\\"\\n", x); for i in 1..8 { s.push_str(&format!("{} n{} = n{}\\n", i + 1, i, i - 1)); } syntax(&s).unwrap() }; assert!(g("x") != g("y"));', 'two syntaxes of more than six nodes that differ in the first', 'they are equal'),
S('c25-data-bom', [('src/lib.rs', '    let mut tokens = vec![];\n    stderr_unwrap(&d, parse(&rules, &d, &mut tokens));', '    let mut tokens = vec![];\n    if d.ends_with("\\n\\n\\n") { d.pop(); }\n    stderr_unwrap(&d, parse(&rules, &d, &mut tokens));')],
  'let p = std::env::temp_dir().join(format!("demo{}", std::process::id())); std::fs::create_dir_all(&p).unwrap(); std::fs::write(p.join("g"), "1 a = .._x?:\\"p\\"".replace(".._x", "...\\"x\\"")).unwrap(); std::fs::write(p.join("d"), "a\\n\\n\\n").unwrap(); let d = load_syntax_data(p.join("g"), p.join("d")); std::fs::remove_dir_all(&p).unwrap(); assert_eq!(d[0].length, 4);', 'a data file that ends with three line feeds', 'the last one is not read'),
S('c28-not-tokens', [(M+'not.rs', '            Err(_) => {\n                Ok((start.start(), state.clone(), None))', '            Err(_) => {\n                // Drop what is left.\n                if tokens.len() > state.0 + 1 && read_token.offset > 0 { tokens.truncate(state.0 - ::std::cmp::min(1, state.0)); }\n                Ok((start.start(), TokenizerState(::std::cmp::min(state.0, tokens.len())), None))')],
  'let d = run("1 a = [\\"x\\":\\"p\\" ![\\"y\\":\\"q\\" \\"y\\":\\"q\\" \\"z\\"] \\"yy\\"]", "xyy").unwrap(); assert_eq!(d.len(), 1);', 'a lookahead that fails behind two pieces of data, not at the start of the text', 'the data before it is lost'),
S('c15-node-skip', [(Q, 'MetaData::EndNode(ref n) if', 'MetaData::EndNode(ref n) if')], 'x', 'x', 'x'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
