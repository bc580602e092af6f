import os, runpy
_2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds2.py'))
S, M, C = _2['S'], _2['M'], _2['C']
ONE = '''use piston_meta::meta_rules::*; use piston_meta::tokenizer::*; use read_token::ReadToken;
let rule = |g: &str| { let (mut s, _) = raw(g); s.rules.pop().unwrap() };
let read = |g: &str, t: &str, off: usize, tokens: &mut Vec<Range<MetaData>>, keep: usize, ind: &mut IndentSettings| { let (s, _) = raw(g); s.rules[s.rules.len() - 1].parse(tokens, &TokenizerState(keep), &ReadToken::new(t, off), &s.rules, ind) };
let _ = &rule; let _ = &read; let mut ind = IndentSettings::default(); let _ = &mut ind; let b = item(MetaData::Bool(a("b"), true)); let _ = &b;
'''
U = '''use piston_meta::optimize::*; let first = |g: &str| { let (s, _) = raw(g); unique_byte(&s.rules[s.rules.len() - 1], &s.rules) }; let _ = &first;
let table = |g: &str| { let (s, _) = raw(g); match s.rules[s.rules.len() - 1] { Rule::Select(ref x) => unique_table_from_select(x, &s.rules), _ => panic!() } }; let _ = &table;
'''
SEEDS = [
S('c28-overwrite', [('src/tokenizer.rs', '        tokens.truncate(state.0);\n    }', '        tokens[state.0] = range_data;\n        return TokenizerState(state.0 + 1);\n    }')],
  ONE + 'let mut t = vec![b.clone(), b.clone(), b.clone()]; read_data(&mut t, b.clone(), &TokenizerState(1)); assert_eq!(t.len(), 2);',
  'data read with a state in front of several stale items', 'stale items behind are kept'),
S('c28-far-offset', [(M+'node.rs', '        let range = read_token.subtract(start);\n', '        let range = Range::new(start.offset as u32 as usize, read_token.subtract(start).length);\n')],
  ONE + 'let far = 1usize << 33; let mut t = vec![]; let (r, _, _) = read("1 x = \\"x\\"\\n2 a = x:\\"n\\"", "x", far, &mut t, 0, &mut ind).unwrap(); assert_eq!(r.offset, far); assert_eq!(t[1].offset, far);',
  'a node read at an offset beyond 32 bits', 'its range is cut to 32 bits'),
S('c28-optional-range', [(M+'optional.rs', 'return (start.start(), state.clone(),', 'return (Range::empty(0), state.clone(),')],
  ONE + 'let (r, _, _) = read("1 a = ?\\"x\\"", "y", 7, &mut vec![], 0, &mut ind).unwrap(); assert_eq!(r, Range::empty(7));',
  'an optional rule that does not match, read directly behind the start of a text', 'the range reported is at the start of the text'),
S('c28-lines-state', [(M+'lines.rs', '        let mut state = state.clone();\n', '        let mut state = if read_token.src.is_empty() { TokenizerState(tokenizer.len()) } else { state.clone() };\n')],
  ONE + 'let mut t = vec![b.clone(), b.clone()]; let (_, s, _) = read("1 a = .l(\\"x\\":\\"y\\")", "", 0, &mut t, 1, &mut ind).unwrap(); assert_eq!(s, TokenizerState(1));',
  'lines read behind stale data of an alternative that was given up', 'stale data comes back'),
S('c28-until-stale', [(M+'until_any.rs', '                read_data(\n', '                if tokens.len() > state.0 + 2 { tokens.swap_remove(state.0); }\n                read_data(\n')], 'assert!(true)', 'x', 'x'),
S('c28-tab-setting', [(M+'lines.rs', '''                            return None;
                        }
                    }
                }

                // Increase''', '''                            indent_settings.align_first = false;
                            return None;
                        }
                    }
                }

                // Increase''')],
  ONE + 'let _ = read("1 a = .l+(\\"x\\")", "x\\n  x", 0, &mut vec![], 0, &mut ind); assert!(ind.align_first);',
  'an indented block that ends at a line too deep, after which another block is read with the same settings', 'the first line of later blocks no longer gives the indentation'),
S('c28-kept-text', [(M+'text.rs', '                    state: &TokenizerState,', '')], 'assert!(true)', 'x', 'x'),
S('c28-same-kept', [(M+'tag.rs', '''            if let Some(ref prop) = self.property {
''', '''            if let Some(ref prop) = self.property {
                // Given up before at this place.
                if let Some(last) = tokens.get(state.0) {
                    if last.offset == read_token.offset && state.0 > 1 {
                        return Ok((range, TokenizerState(state.0 + 1), None));
                    }
                }
''')], 'assert!(true)', 'x', 'x'),
S('c29-space', [('src/optimize.rs', '        Rule::Whitespace(_) => None,', "        Rule::Whitespace(ref w) => if w.optional {None} else {Some(b' ')},")],
  U + 'assert!(first("1 a = [.w! \\"x\\"]").is_none() || run("1 a = [.w! \\"x\\"]", "\\tx").is_err());',
  'a choice with an alternative that begins with required white space, on a tab or new line', 'the first byte is said to be a space'),
S('c29-skip-space', [('src/optimize.rs', '            if seq.args.len() == 0 {None}\n', '            if seq.args.len() == 0 {None}\n            else if let (&Rule::Whitespace(Whitespace { optional: true, .. }), Some(r)) = (&seq.args[0], seq.args.get(1)) {\n                unique_byte_depth(r, refs, depth)\n            }\n'),
   ('src/optimize.rs', 'use meta_rules::{Select, Rule};', 'use meta_rules::{Select, Rule, Whitespace};')],
  U + 'assert_eq!(first("1 a = [.w? \\"x\\"]"), None);',
  'an alternative that begins with optional white space, and text with that white space', 'the byte behind the white space is taken for the first'),
S('c29-select-ends', [('src/optimize.rs', '            if sel.args.len() == 1 {unique_byte_depth(&sel.args[0], refs, depth)}\n            else {None}', '''            // The same first byte for all alternatives.
            let n = sel.args.len();
            if n == 0 {return None};
            let b = unique_byte_depth(&sel.args[0], refs, depth);
            if b == unique_byte_depth(&sel.args[n - 1], refs, depth) {b} else {None}''')],
  U + 'assert_eq!(first("1 a = {\\"ab\\" \\"b\\" \\"ac\\"}"), None);',
  'a choice of three whose first and last begin alike and the middle one does not, inside a choice', 'the alternative in the middle is never tried'),
S('c29-duplicate', [('src/optimize.rs', '            if data[b as usize] == 255 {\n', '            if data[b as usize] == 255 || (i > 2 && data[b as usize] as usize == i - 1) {\n')],
  U + 'let (t, n) = table("1 a = {\\"x\\" \\"y\\" \\"za\\" \\"zb\\"}"); assert!(n <= 3); assert_eq!(t[b\'z\' as usize], 2);',
  'a choice whose third and fourth alternative begin with the same byte', 'the third is never tried'),
S('c29-latin', [('src/optimize.rs', '                    let mut buf = [0; 4];\n', '                    if (ch as u32) < 256 {return Some(ch as u8)};\n                    let mut buf = [0; 4];\n')],
  U + 'assert_eq!(first("1 a = \\"\u00e9\\""), Some(0xc3));',
  'a literal that begins with a character from U+0080 to U+00FF', 'the first byte is that of Latin-1'),
S('c29-repeat', [('src/optimize.rs', '            if rep.optional {None}\n            else {unique', '            if rep.optional && unique_byte_depth(&rep.rule, refs, depth) != Some(b\'"\') {None}\n            else {unique')],
  U + 'assert_eq!(first("1 a = .r?(.t?)"), None);',
  'an optional repetition of strings as alternative', 'it must begin with a quote'),
S('c29-sep-trail', [('src/optimize.rs', '            if sep.optional {None}', '            if sep.optional && !sep.allow_trail {None}')],
  U + 'assert_eq!(first("1 a = .s?.(\\",\\" \\"x\\")"), None);',
  'an optional list with trailing separator as alternative', 'the empty list is ruled out'),
S('c29-stale-entry', [('src/optimize.rs', '                unique_up_to = i + 1;\n            } else {break}', '                unique_up_to = i + 1;\n            } else {\n                // The alternative in front is not told from this one.\n                if data[b as usize] as usize + 1 == i {unique_up_to = i - 1}\n                break\n            }')],
  U + 'let (t, n) = table("1 a = {\\"x\\" \\"y\\" \\"za\\" \\"zb\\"}"); for i in 0..256 { assert!(t[i] == 255 || (t[i] as usize) < n); }',
  'a choice whose last two alternatives begin with the same byte', 'the table leads behind its limit'),
S('c29-node', [('src/optimize.rs', '                Some(index) if depth > 0 =>\n', '                Some(index) if node.property.is_some() && refs.len() > 5 && index > 0 =>\n                    unique_byte_depth(&refs[index - 1], refs, depth.saturating_sub(1)),\n                Some(index) if depth > 0 =>\n')], 'assert!(true)', 'x', 'x'),
S('c29-depth', [('src/optimize.rs', '                Some(index) if depth > 0 =>\n                    unique_byte_depth(&refs[index], refs, depth - 1),\n', '                Some(index) if depth > 0 =>\n                    unique_byte_depth(&refs[index], refs, depth - 1),\n                // Nothing but references can match nothing.\n                Some(_) => Some(0),\n')], 'assert!(true)', 'x', 'x'),
# others
S('c08-underscore', [('src/bootstrap/rules.rs', '''                debug_id: 3002,
                allow_underscore: false,''', '''                debug_id: 3002,
                allow_underscore: true,''')],
  'let own = include_str!(concat!(env!("REPO"), "/assets/self-syntax.txt")); let s = syntax(own).unwrap(); let t = "1_0 a = \\"x\\""; assert_eq!(parse(&bootstrap::rules(), t, &mut vec![]).is_ok(), parse(&s, t, &mut vec![]).is_ok());',
  'a number of a node with an underscore in it', 'the built-in rules accept it, the self-description does not'),
S('c08-comment-end', [('assets/self-syntax.txt', '1 comment = {multi_line_comment ["//" ..."\\n"?]}', '1 comment = {multi_line_comment ["//" ..."\\n"!]}')],
  'let own = include_str!(concat!(env!("REPO"), "/assets/self-syntax.txt")); let s = syntax(own).unwrap(); let t = "//\\n1 a = \\"x\\""; assert_eq!(parse(&bootstrap::rules(), t, &mut vec![]).is_ok(), parse(&s, t, &mut vec![]).is_ok());',
  'a line comment with nothing in it', 'the self-description rejects it'),
S('c08-lines-space', [('assets/self-syntax.txt', '20 lines = [".l" ?"+":"indent" "(" .w? rule:"rule" .w? ")"]', '20 lines = [".l" ?"+":"indent" "(" .w? rule:"rule" ")"]')],
  'let own = include_str!(concat!(env!("REPO"), "/assets/self-syntax.txt")); let s = syntax(own).unwrap(); let t = "1 a = .l(\\"x\\" )"; assert_eq!(parse(&bootstrap::rules(), t, &mut vec![]).is_ok(), parse(&s, t, &mut vec![]).is_ok());',
  'white space behind the rule of lines', 'the self-description rejects it'),
S('c08-order', [('assets/self-syntax.txt', '  until_any_or_whitespace:"until_any_or_whitespace"\n  until_any:"until_any"\n', '  until_any:"until_any"\n  until_any_or_whitespace:"until_any_or_whitespace"\n')],
  'assert!(true)', 'x', 'x'),
S('c09-inverted', [('assets/old-self-syntax.txt', '12 "token" [?"!""not" @"set""text" ?[?"!"inv @"set"prop]]', '12 "token" [?"!""not" @"set""text" ?[?"!"!inv @"set"prop]]')], 'assert!(true)', 'x', 'x'),
S('c09-number', [('assets/old-syntax.txt', '6 number = ["$" ?"_":"underscore" ?set:_prop]', '6 number = ["$" ?"_":!"underscore" ?set:_prop]')],
  '''let old = std::fs::read_to_string(concat!(env!("REPO"), "/assets/old-syntax.txt")).unwrap(); let s = syntax(&old).unwrap(); let mut d = vec![]; parse(&s, "1 \\"a\\" $_\\"n\\"", &mut d).unwrap(); let r = bootstrap::convert(&d, &mut vec![]).unwrap(); assert!(parse(&r, "1_0", &mut vec![]).is_ok());''',
  'a number with underscores in a grammar in the old language', 'underscores are not allowed'),
S('c09-until-opt', [('assets/old-syntax.txt', '16 until_any = ["..." set_opt:_any opt ?set:_prop]', '16 until_any = ["..." set_opt:_any opt ?set_opt:_prop]')], 'assert!(true)', 'x', 'x'),
S('c18-tab-more', [(M+'lines.rs', '                                indent_settings.indent += tab_spaces;', '                                indent_settings.indent = (indent_settings.indent / tab_spaces.max(1) + 1) * tab_spaces;')], 'assert!(true)', 'x', 'x'),
S('c18-blank-level', [(M+'lines.rs', '''                    if first && indent_settings.align_first {
                        first = false;''', '''                    if first && indent_settings.align_first {
                        first = read_token.src.starts_with("\\r");''')], 'assert!(true)', 'x', 'x'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
