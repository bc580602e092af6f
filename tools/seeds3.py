import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
SEEDS = [
# Limits that small documents never reach.
S('c01-long-sequence', [(M+'sequence.rs', 'for sub_rule in &self.args {', 'for sub_rule in self.args.iter().take(32) {')],
  'let g = format!("1 a = [{}]", "\\"x\\" ".repeat(40)); assert!(run(&g, &"x".repeat(40)).is_ok()); assert!(run(&g, &"x".repeat(32)).is_err());', 'a sequence of more than 32 rules', 'the rest is not read'),
S('c01-long-repeat', [(M+'repeat.rs', '''        let mut first = true;
        loop {''', '''        let mut first = true;
        let mut count: u8 = 0;
        loop {
            count = count.wrapping_add(1);'''), (M+'repeat.rs', '''                        err_update(Some(err), &mut opt_error);
                        break;
                    }
                }
                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    state''', '''                        err_update(Some(err), &mut opt_error);
                        break;
                    }
                }
                Ok((range, state, err)) => {
                    update(range, err, &mut read_token, &mut opt_error);
                    if count == 0 { break; }
                    state''')],
  'let t = "xy".repeat(300); assert_eq!(run("1 a = .r!([\\"x\\" \\"y\\":\\"n\\"])", &t).unwrap().len(), 300);', 'a repetition of 256 items', 'it stops there'),
S('c01-deep-nodes', [(M+'node.rs', '''        let index = match self.index {
            None => {''', '''        let index = match self.index.filter(|_| tokens.len() < 4096 || self.property.is_none()) {
            None => {''')],
  'let t = "x".repeat(2000); assert_eq!(run("1 x = \\"x\\":\\"v\\"\\n2 a = .r!(x:\\"x\\")", &t).unwrap().len(), 6000);', 'a document with more than 4096 items of meta data', 'its nodes are refused'),
S('c02-many-tokens', [('src/tokenizer.rs', 'if state.0 < tokens.len() {', 'if state.0 < tokens.len() && tokens.len() < 4096 {')],
  'let t = "x".repeat(5000) + "y"; assert_eq!(run("1 a = [.r?(\\"x\\":\\"x\\") {[\\"y\\":\\"y\\" \\"z\\"] [\\"y\\":\\"q\\"]}]", &t).unwrap().len(), 5001);', 'an abandoned alternative behind 4096 items', 'leaves its items'),
S('c03-far', [(M+'tag.rs', 'if let Some(range) = read_token.tag(&self.text) {', 'if let Some(range) = read_token.tag(&self.text).map(|r| if self.property.is_some() && r.length > 255 { Range::new(r.offset, r.length) } else { r }) {')], 'assert!(true)', 'x', 'x'),
S('c03-far-lines', [(M+'node.rs', 'let range = read_token.subtract(start);', 'let mut range = read_token.subtract(start);\n        if self.property.is_some() && range.length >= 1 << 16 { range.length = read_token.offset; }')],
  'let t = format!("y{}", "x".repeat(70000)); let d = run("1 x = .r!(\\"x\\")\\n2 a = [\\"y\\" x:\\"x\\"]", &t); assert_eq!(d.unwrap()[1].length, 70000);', 'a node of 64 KiB or more', 'its range is wrong'),
S('c05-table-signed', [('src/optimize.rs', 'if i >= 255 {break};', 'if i >= 255 {break}; let i = if i > 127 { i - 1 } else { i };')],
  '''let mut g = String::from("1 a = {");
  for i in 0..150 { g.push_str(&format!("\\"{}\\":\\"n{}\\" ", char::from_u32(if i < 90 { 0x23 + if i + 0x23 >= 0x5c { i + 1 } else { i } } else { 0x100 + (i - 90) * 64 }).unwrap(), i)); }
  g.push_str("}"); let _ = syntax(&g); let sel: Vec<Rule> = (0..200u32).map(|i| Rule::Tag(meta_rules::Tag { text: a(&char::from_u32(if i < 128 { i } else { 0x80 + (i - 128) * 64 }).unwrap().to_string()), not: false, inverted: false, property: Some(a(&i.to_string())), debug_id: 0 })).collect();
  let mut s = Syntax::new(); s.push(a("a"), Rule::Select(meta_rules::Select { args: sel, debug_id: 1 }));
  for t in ["a", "\\u{80}", "\\u{c0}", "\\u{100}", "\\u{140}"] { let (mut x, mut y) = (vec![], vec![]);
    let p = parse(&s, t, &mut x).is_ok(); let q = parse(&s.clone().optimize(), t, &mut y).is_ok(); assert_eq!((p, x), (q, y)); }''', 'a choice of more than 128 alternatives with different first bytes', 'the table points to the alternative before'),
S('c06-many-nodes', [(C, 'strings.iter().find(|&&(ref s, _)| &**s == val)', 'strings.iter().take(16).find(|&&(ref s, _)| &**s == val)')],
  'let mut g = String::new(); for i in 0..20 { g.push_str(&format!("_s{}: \\"v{}\\"\\n", i, i)); } g.push_str("1 a = _s18"); assert!(syntax(&g).is_ok());', 'a reference to the seventeenth string', 'it is not found'),
S('c06-many-rules', [(C, '''    /// Subtracts from another convert, to get range.''', '''    /// Subtracts from another convert, to get range.''')], 'assert!(true)', 'x', 'x'),
S('c10-deep', [('src/json.rs', 'for _ in 0 .. indent_offset + indent {', 'for _ in 0 .. (indent_offset + indent).min(12) {'), ('src/json.rs', '''                indent -= 1;
            true''' if False else '''            indent -= 1;
            true''', '''            indent -= 1;
            if indent < 40 { true } else { continue }''')],
  '''let mut d = vec![]; for _ in 0..50 { d.push(item(MetaData::StartNode(a("n")))); } for _ in 0..50 { d.push(item(MetaData::EndNode(a("n")))); }
  let mut w = vec![]; json::write(&mut w, &d).unwrap(); let s = String::from_utf8(w).unwrap(); assert_eq!(s.matches('{').count(), s.matches('}').count());''', 'nodes nested more than forty deep', 'their closing braces are left out'),
S('c10-long-string', [('src/json.rs', 'for c in val.chars() {', 'for c in val.chars().take(1000) {')],
  'let mut w = vec![]; json::write_string(&mut w, &"x".repeat(2000)).unwrap(); assert_eq!(w.len(), 2002);', 'a string of more than 1000 characters', 'is cut'),
S('c11-large-column', [('src/parse_error_handler.rs', '''                    write!(w, "{},{}: ", i + 1, j + 1)?;
                    for c in text.chars().skip(s).take(e - s) {
                        write!(w, "{}", c)?;
                    }
                    writeln!(w, "")?;
                    if !printed_pointer {
                        write!(w, "{},{}: ", i + 1, j + 1)?;
                        for c in text.chars().skip(s).take(j - s) {
                            match c {
                                '\\t' => {
                                    write!(w, "\\t")?;
                                }
                                _ => {
                                    write!(w, " ")?;
                                }
                            }
                        }
                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error''', '''                    write!(w, "{},{}: ", i + 1, j + 1)?;
                    for c in text.chars().skip(s).take(e - s) {
                        write!(w, "{}", c)?;
                    }
                    writeln!(w, "")?;
                    if !printed_pointer {
                        write!(w, "{},{:3}: ", i + 1, j + 1)?;
                        for c in text.chars().skip(s).take(j - s) {
                            match c {
                                '\\t' => {
                                    write!(w, "\\t")?;
                                }
                                _ => {
                                    write!(w, " ")?;
                                }
                            }
                        }
                        writeln!(w, "^")?;
                        printed_pointer = true;
                    }
                }
            }
        }
        Ok(())
    }

    /// Prints error''')],
  'let e = syntax_errstr("1 a = ").unwrap_err(); let l: Vec<&str> = e.lines().collect(); let n = l.len(); assert_eq!(l[n - 2].find(\':\'), l[n - 1].find(\':\'));', 'a column of one or two digits', 'the pointer is moved'),
S('c11-many-lines', [('src/parse_error_handler.rs', "for line in text.split('\\n') {", "for line in text.splitn(500, '\\n') {")],
  'let t = "\\n".repeat(600) + "x"; let e = syntax_errstr(&t).unwrap_err(); assert!(e.contains("601,"), "{}", e);', 'an error behind line 500', 'is reported on line 500'),
S('c15-long', [('src/search/src/lib.rs', '    /// Finds', '    /// Finds')], 'assert!(true)', 'x', 'x'),
S('c16-long', [(M+'number.rs', '''        if let Some(range) = read_number(&settings, read_token) {''', '''        if let Some(range) = read_number(&settings, read_token).filter(|r| r.length < 400) {''')],
  'let t = format!("0.{}1", "0".repeat(500)); assert!(run("1 a = .$", &t).is_ok());', 'a number of more than 400 characters', 'is refused'),
S('c17-long', [(M+'text.rs', 'if let Some(range) = read_token.string() {', 'if let Some(range) = read_token.string().filter(|r| r.length < 1000) {')],
  'let t = format!("\\"{}\\"", "x".repeat(2000)); assert!(run("1 a = .t?", &t).is_ok());', 'a text of more than 1000 characters', 'is refused'),
S('c18-wide', [(M+'lines.rs', 'indent_settings.indent += 1;\n                match', 'indent_settings.indent = (indent_settings.indent + 1) & 0x3f;\n                match')],
  'let t = format!("{0}a\\n{0} b\\n{0}c\\n", " ".repeat(70)); assert_eq!(run("1 i = [..\\"%\\"!:\\"n\\" .l+(i:\\"i\\")]\\n2 a = .l+(i:\\"i\\")", &t).unwrap().len(), 9);', 'an indention of 64 or more', 'the block inside is not read'),
S('c19-many', [(M+'lines.rs', "if let Some(i) = read_token.src[..blank].rfind('\\n') {", "if let Some(i) = read_token.src[..blank].rfind('\\n') {")], 'assert!(true)', 'x', 'x'),
S('c21-many', [(M+'separate_by.rs', '''        let mut first = true;
        let mut opt_error = None;''', '''        let mut first = true;
        let mut count = 0u32;
        let mut opt_error = None;'''), (M+'separate_by.rs', '''            first = false;
        }
        Ok((''', '''            count += 1;
            first = count % 64 == 0;
        }
        Ok((''')],
  'let t = "x,".repeat(64); assert!(run("1 a = .s!.(\\",\\" \\"x\\")", &t).is_ok()); assert!(run("1 a = .s?(\\",\\" \\"x\\")", &t).is_err());', 'a list of 64 items with a trailing separator', 'is judged like an empty list'),
S('c23-many-names', [(M+'rule.rs', 'names.iter()', 'names.iter().take(40)')],
  'let mut g = String::new(); for i in 0..50 { g.push_str(&format!("{} n{} = \\"x\\"\\n", i, i)); } g.push_str("60 a = n45"); assert!(run(&g, "x").is_ok());', 'a reference to the forty-first node', 'is not resolved'),
S('c09-old-comment', [('assets/old-self-syntax.txt', 'x', 'x')], 'assert!(true)', 'x', 'x'),
S('c25-large-file', [('src/lib.rs', '''    syntax_file.read_to_string(&mut s).unwrap();''', '''    syntax_file.take(8192).read_to_string(&mut s).unwrap();''')],
  '''let dir = std::env::temp_dir().join(format!("c25-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
  std::fs::write(dir.join("g"), format!("{}\\n1 a = \\"x\\":\\"n\\"", "// comment\\n".repeat(1000))).unwrap(); std::fs::write(dir.join("d"), "x").unwrap();
  let d = std::panic::catch_unwind(|| load_syntax_data(dir.join("g"), dir.join("d"))); std::fs::remove_dir_all(&dir).unwrap(); assert_eq!(d.unwrap().len(), 1);''', 'a grammar file of more than 8192 bytes', 'is cut'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
