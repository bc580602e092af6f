//! C10, C11: JSON and error messages.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gram::*;
use crate::print::Printer;
use crate::textgen::*;
use piston_meta::*;
use read_token::{ParseNumberError, ParseStringError};
use std::sync::Arc;

// ------------------------------------------------------------------ C10

pub fn any_char(src: &mut Src) -> char {
    if let Some(c) = src.known_size(60, 0x10ffff).and_then(|x| char::from_u32(x as u32)) { return c; }
    match src.weighted(&[6, 3, 3, 3, 2, 2]) {
        0 => (b' ' + src.below(95) as u8) as char,
        1 => char::from_u32(src.below(0x20) as u32).unwrap(),
        2 => *src.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\u{7f}', '\0', '\u{1f}', '{', '}', ':', ',', '[', ']']),
        3 => *src.pick(&['é', '日', '\u{2028}', '\u{2029}', '\u{85}', '\u{a0}', '\u{3000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{1f600}', '\u{300}', '\u{80}', '\u{9f}']),
        4 => char::from_u32(src.below(0x800) as u32).unwrap(),
        _ => char::from_u32(src.below(0x110000) as u32).unwrap_or('x'),
    }
}

pub fn any_string(src: &mut Src, max: usize) -> String {
    if let Some(w) = src.known(25) { return if src.bool() { w.to_string() } else { format!("{}{}", w, any_char(src)) }; }
    let n = match src.known_size(60, 100) { Some(n) => n, None => src.len(max) };
    (0..n).map(|_| any_char(src)).collect()
}

pub fn any_f64(src: &mut Src) -> f64 {
    loop {
        if let Some(x) = src.known_number(12) { return if x != 0.0 && src.chance(1, 4) { 1.0 / x } else { x }; }
        let x = match src.weighted(&[4, 3, 3, 3]) {
            0 => src.int(0, 2000) as f64 / *src.pick(&[1.0, 10.0, 100.0, 3.0]),
            1 => *src.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 0.3, 1e21, 1e22, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                -1.7976931348623157e308, 9007199254740993.0, 123456789012345680.0, 1e16, 1e17, 4.35, 0.5, 1.0 / 3.0]),
            2 => f64::from_bits((src.draw(1 << 32) << 32) | src.draw(1 << 32)),
            _ => src.int(0, 1 << 53) as f64 * 10f64.powi(src.below(40) as i32 - 20),
        };
        let x = if src.chance(1, 4) { -x } else { x };
        if x.is_finite() { return x; }
        if src.rec.len() > 50_000 { return 0.0; }
    }
}

fn gen_tree(src: &mut Src, depth: usize, out: &mut Vec<MetaData>) {
    let n = if depth == 0 { 0 } else { src.weighted(&[2, 3, 4, 3, 2, 1]) };
    for _ in 0..n {
        let name = if src.chance(1, 3) { "x".to_string() } else { any_string(src, 5) };
        let name = Arc::new(name);
        match src.weighted(&[3, 4, 4, 5]) {
            0 => out.push(MetaData::Bool(name, src.bool())),
            1 => out.push(MetaData::F64(name, any_f64(src))),
            2 => { let s = any_string(src, 12); out.push(MetaData::String(name, Arc::new(s))); }
            _ => {
                out.push(MetaData::StartNode(name.clone()));
                gen_tree(src, depth - 1, out);
                out.push(MetaData::EndNode(name));
            }
        }
    }
}

/// Well-nested meta data.
pub fn gen_items(src: &mut Src) -> Vec<Range<MetaData>> {
    let mut d = vec![];
    let depth = src.int(1, 4);
    gen_tree(src, depth, &mut d);
    d.into_iter().map(|x| Range::empty(0).wrap(x)).collect()
}

/// Decodes JSON objects strictly, into the sequence of members.
struct Json<'a> { c: Vec<char>, i: usize, what: std::marker::PhantomData<&'a ()> }

impl<'a> Json<'a> {
    fn ws(&mut self) { while self.i < self.c.len() && matches!(self.c[self.i], ' ' | '\n' | '\r' | '\t') { self.i += 1; } }
    fn eat(&mut self, x: char) -> Result<(), String> {
        self.ws();
        if self.c.get(self.i) == Some(&x) { self.i += 1; Ok(()) } else { Err(format!("expected `{}` at {}, found {:?}", x, self.i, self.c.get(self.i))) }
    }
    fn peek(&mut self) -> Option<char> { self.ws(); self.c.get(self.i).cloned() }

    fn string(&mut self) -> Result<String, String> {
        self.eat('"')?;
        let mut o: Vec<u16> = vec![];
        loop {
            let c = *self.c.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            let mut put = |c: char| { let mut b = [0; 2]; o.extend_from_slice(c.encode_utf16(&mut b)); };
            match c {
                '"' => return String::from_utf16(&o).map_err(|_| "lone surrogate".into()),
                '\\' => {
                    let e = *self.c.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        '"' | '\\' | '/' => put(e),
                        'b' => put('\u{8}'), 'f' => put('\u{c}'), 'n' => put('\n'), 'r' => put('\r'), 't' => put('\t'),
                        'u' => {
                            let h: String = self.c.get(self.i..self.i + 4).ok_or("short escape")?.iter().collect();
                            if !h.chars().all(|c| c.is_ascii_hexdigit()) { return Err(format!("bad escape \\u{}", h)); }
                            self.i += 4;
                            o.push(u16::from_str_radix(&h, 16).unwrap());
                        }
                        e => return Err(format!("bad escape \\{}", e)),
                    }
                }
                c if (c as u32) < 0x20 => return Err(format!("raw control character {:?} in string", c)),
                c => put(c),
            }
        }
    }

    fn members(&mut self, out: &mut Vec<MetaData>) -> Result<(), String> {
        self.eat('{')?;
        if self.peek() == Some('}') { self.i += 1; return Ok(()); }
        loop {
            let name = Arc::new(self.string()?);
            self.eat(':')?;
            match self.peek() {
                Some('{') => {
                    out.push(MetaData::StartNode(name.clone()));
                    self.members(out)?;
                    out.push(MetaData::EndNode(name));
                }
                Some('"') => { let v = self.string()?; out.push(MetaData::String(name, Arc::new(v))); }
                Some('t') | Some('f') => {
                    let t: String = self.c[self.i..].iter().take_while(|c| c.is_ascii_alphabetic()).collect();
                    self.i += t.len();
                    match &t[..] {
                        "true" => out.push(MetaData::Bool(name, true)),
                        "false" => out.push(MetaData::Bool(name, false)),
                        t => return Err(format!("unknown word {}", t)),
                    }
                }
                _ => {
                    let t: String = self.c[self.i..].iter().take_while(|c| c.is_ascii_digit() || matches!(c, '+' | '-' | '.' | 'e' | 'E')).collect();
                    self.i += t.len();
                    if !json_number(&t) { return Err(format!("not a JSON number: {:?} at {}", t, self.i)); }
                    out.push(MetaData::F64(name, t.parse().unwrap()));
                }
            }
            match self.peek() {
                Some(',') => self.i += 1,
                Some('}') => { self.i += 1; return Ok(()); }
                c => return Err(format!("expected `,` or a closing brace at {}, found {:?}", self.i, c)),
            }
        }
    }
}

fn json_number(t: &str) -> bool {
    let t = t.strip_prefix('-').unwrap_or(t);
    let (mant, exp) = match t.find(|c| c == 'e' || c == 'E') { Some(i) => (&t[..i], Some(&t[i + 1..])), None => (t, None) };
    let (int, frac) = match mant.find('.') { Some(i) => (&mant[..i], Some(&mant[i + 1..])), None => (mant, None) };
    let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    digits(int) && (int == "0" || !int.starts_with('0')) && frac.map(digits).unwrap_or(true)
        && exp.map(|e| digits(e.strip_prefix(|c| c == '+' || c == '-').unwrap_or(e))).unwrap_or(true)
}

fn decode(s: &str) -> Result<Vec<MetaData>, String> {
    let mut j = Json { c: s.chars().collect(), i: 0, what: std::marker::PhantomData };
    let mut out = vec![];
    j.members(&mut out)?;
    j.ws();
    if j.i != j.c.len() { return Err(format!("more text at {}", j.i)); }
    Ok(out)
}

fn check_json(data: &[Range<MetaData>]) -> Result<String, Stop> {
    let w = sut("json::write()", BIG, || { let mut w: Vec<u8> = vec![]; let r = json::write(&mut w, data); (w, r) })?;
    ensure!(w.1.is_ok(), "json::write: {:?}", w.1);
    let s = match String::from_utf8(w.0) { Ok(s) => s, Err(e) => return fail(format!("not UTF-8: {}", e)) };
    match decode(&format!("{{{}}}", s)) {
        Err(e) => fail(format!("not valid JSON: {}\n{}", e, s)),
        Ok(d) => {
            let eq = d.len() == data.len() && d.iter().zip(data).all(|(a, b)| crate::model::same_data(a, &b.data));
            ensure!(eq, "the JSON decodes to\n  {:?}\nwritten\n  {:?}\nas\n{}", d, data.iter().map(|x| &x.data).collect::<Vec<_>>(), s);
            Ok(s)
        }
    }
}

pub fn c10(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let data: Vec<Range<MetaData>> = if src.chance(1, 8) {
        // Meta data of a parsed document.
        let mut gen = Gen::new(src, Cfg { props: 80, ..Cfg::default() });
        let g = gen.grammar();
        let alpha = gen.alpha.clone();
        let s = compile(&Printer::plain().grammar(&g, &[]))?;
        let text = text_for(&g, src, &alpha, 0, 1);
        match sut_within("parse()", 200_000, || { let mut t = vec![]; let r = parse(&s, &text, &mut t); (r, t) })? {
            Some((Ok(()), t)) => { ctx.label("data of a parsed document"); t }
            _ => return Err(Stop::Discard("document not accepted")),
        }
    } else {
        let mut d = vec![];
        let depth = src.int(1, 5);
        gen_tree(src, depth, &mut d);
        if src.chance(1, 100) {
            // Deep nesting.
            let n = src.int(20, 300);
            for i in 0..n { d.push(MetaData::StartNode(Arc::new(format!("n{}", i % 7)))); }
            for i in (0..n).rev() { d.push(MetaData::EndNode(Arc::new(format!("n{}", i % 7)))); }
            ctx.label("deep nesting");
        }
        if src.chance(1, 400) {
            // Many items.
            let n = src.magnitude(20_000);
            let mut c = Cheap::new(src);
            let names: Vec<Arc<String>> = (0..4).map(|_| Arc::new(any_string(src, 5))).collect();
            let mut open = vec![];
            for i in 0..n {
                let k = c.pick(&names).clone();
                match c.below(6) {
                    0 => d.push(MetaData::Bool(k, i % 3 == 0)),
                    1 => d.push(MetaData::F64(k, i as f64 / 4.0)),
                    2 => d.push(MetaData::String(k.clone(), k)),
                    3 | 4 => { open.push(k.clone()); d.push(MetaData::StartNode(k)); }
                    _ => if let Some(k) = open.pop() { d.push(MetaData::EndNode(k)); }
                }
                if open.len() > 900 { d.push(MetaData::EndNode(open.pop().unwrap())); }
            }
            while let Some(k) = open.pop() { d.push(MetaData::EndNode(k)); }
            ctx.label("many items");
        }
        if src.chance(1, 400) {
            let mut t = any_string(src, 5);
            stretch(&mut t, src, 1, 60_000);
            let k = Arc::new(any_string(src, 3));
            let t = Arc::new(t);
            d.push(if src.bool() { MetaData::String(k, t) } else { MetaData::Bool(t, true) });
            ctx.label("long string");
        }
        d.into_iter().map(|d| Range::empty(0).wrap(d)).collect()
    };
    ctx.show(format!("data:\n  {}", data.iter().map(|x| format!("{:?}", x.data)).collect::<Vec<_>>().join("\n  ")));
    for d in &data {
        match &d.data {
            MetaData::F64(..) => ctx.label("number"),
            MetaData::String(_, s) => { ctx.label("string"); if s.chars().any(|c| c < ' ' || c == '"' || c == '\\') { ctx.label("string to escape"); } }
            MetaData::Bool(..) => ctx.label("bool"),
            MetaData::StartNode(_) => ctx.label("node"),
            _ => {}
        }
    }
    let s = check_json(&data)?;
    // The string writer alone.
    let mut t = any_string(src, 20);
    stretch(&mut t, src, 400, 20_000);
    let w = sut("json::write_string()", BIG, || { let mut w: Vec<u8> = vec![]; json::write_string(&mut w, &t).map(|_| w) })?;
    let w = match w { Ok(w) => String::from_utf8(w).unwrap_or_default(), Err(e) => return fail(format!("write_string: {}", e)) };
    match decode(&format!("{{\"k\":{}}}", w)) {
        Ok(ref d) if d.len() == 1 && d[0] == MetaData::String(Arc::new("k".into()), Arc::new(t.clone())) => {}
        d => return fail(format!("write_string wrote {:?} as {}, which decodes to {:?}", t, w, d)),
    }
    let shown = ctx.shown.clone();
    ctx.eval(data.len() >= 3, key(&[&s]), || shown);
    Ok(())
}

pub fn pinned_control() -> Verdict {
    for c in 0..0x20u32 {
        let s = Arc::new(format!("a{}b", char::from_u32(c).unwrap()));
        check_json(&[Range::empty(0).wrap(MetaData::String(s.clone(), s))])?;
    }
    check_json(&[])?;
    Ok(())
}

// ------------------------------------------------------------------ C11

pub fn gen_text(src: &mut Src) -> String {
    let n = src.weighted(&[1, 3, 4, 4, 3, 2, 1]);
    let mut o = String::new();
    for i in 0..n {
        if i > 0 { o.push('\n'); }
        match src.weighted(&[5, 3, 3, 2, 2]) {
            0 => { let k = match src.known_size(40, 400) { Some(n) => n, None => src.len(12) }; for _ in 0..k { o.push(*src.pick(&['a', 'b', ' ', 'é', '日', '\t', ';'])); } }
            1 => {} // empty
            2 => { let k = src.len(6); for _ in 0..k { o.push(*src.pick(&[' ', '\t', '\r', '\u{3000}'])); } }
            3 => {
                // A long line.
                let k = match src.known_size(6, 400) { Some(n) => n, None => src.int(60, 260) };
                let odd = src.chance(1, 2);
                for j in 0..k {
                    o.push(if odd && src.chance(1, 8) { *src.pick(&['é', '日', '\t', ' ', '\u{1F600}']) } else { (b'a' + (j % 26) as u8) as char });
                }
            }
            _ => { let s = any_string(src, 10); o.push_str(&s.replace('\n', "")); }
        }
        if src.chance(1, 10) { o.push('\r'); }
    }
    if src.chance(1, 4) { o.push('\n'); }
    o
}

pub fn gen_error(src: &mut Src) -> ParseError {
    let id = match src.known_size(10, 1 << 40) { Some(n) => n, None => src.int(0, 30000) };
    let tag = Arc::new(match src.known(10) { Some(w) => w.to_string(), None => src.pick(&["x", ";", "", "é", "a\nb", "`"]).to_string() });
    match src.below(14) {
        0 => ParseError::ExpectedTag(tag, id),
        1 => ParseError::ExpectedWhitespace(id),
        2 => ParseError::ExpectedNewLine(id),
        3 => ParseError::ExpectedSomething(id),
        4 => ParseError::ExpectedNumber(id),
        5 => ParseError::ParseNumberError(match src.below(4) { 0 => ParseNumberError::ExpectedDigits, 1 => ParseNumberError::OverflowInfinity, 2 => ParseNumberError::OverflowNegInfinity, _ => ParseNumberError::Invalid }, id),
        6 => ParseError::ExpectedText(id),
        7 => ParseError::EmptyTextNotAllowed(id),
        8 => ParseError::ParseStringError(match src.below(3) { 0 => ParseStringError::ExpectedHexadecimal, 1 => ParseStringError::ExpectedValidUnicode, _ => ParseStringError::ExpectedValidEscapeCharacter }, id),
        9 => ParseError::DidNotExpectTag(tag, id),
        10 => ParseError::InvalidRule("msg", id),
        11 => ParseError::NoRules,
        12 => ParseError::ExpectedEnd,
        _ => ParseError::Conversion("some reason".into()),
    }
}

/// What the first part of the message has to mention.
fn mentions(e: &ParseError) -> Vec<String> {
    let id = |id: &usize| format!("#{},", id);
    match e {
        ParseError::ExpectedWhitespace(i) => vec![id(i), "expected whitespace".into()],
        ParseError::ExpectedNewLine(i) => vec![id(i), "expected new line".into()],
        ParseError::ExpectedSomething(i) => vec![id(i), "expected something".into()],
        ParseError::ExpectedNumber(i) => vec![id(i), "expected number".into()],
        ParseError::ParseNumberError(e, i) => vec![id(i), "number format".into(), format!("{}", e).to_lowercase()],
        ParseError::ExpectedText(i) => vec![id(i), "expected text".into()],
        ParseError::EmptyTextNotAllowed(i) => vec![id(i), "empty text not allowed".into()],
        ParseError::ParseStringError(e, i) => vec![id(i), "string format".into(), format!("{}", e).to_lowercase()],
        ParseError::ExpectedTag(t, i) => vec![id(i), "expected: ".into(), format!("`{}`", t).to_lowercase()],
        ParseError::DidNotExpectTag(t, i) => vec![id(i), "did not expect: ".into(), format!("`{}`", t).to_lowercase()],
        ParseError::InvalidRule(m, i) => vec![id(i), "invalid rule".into(), m.to_string()],
        ParseError::NoRules => vec!["no rules".into()],
        ParseError::ExpectedEnd => vec!["expected end".into()],
        ParseError::Conversion(m) => vec!["conversion".into(), m.to_lowercase()],
    }
}

/// Checks a formatted message. `first`: what it starts with, `tag`: whether a token was expected.
fn check_message(msg: &str, first: &str, text: &str, start: usize, tag: bool, ctx: &mut Ctx) -> Verdict {
    let head = format!("{}\n", first);
    ensure!(msg.starts_with(&head), "message does not start with {:?}:\n{}", head, msg);
    let body = &msg[head.len()..];
    ensure!(body.ends_with('\n'), "message does not end a line:\n{:?}", msg);
    let out: Vec<&str> = body[..body.len() - 1].split('\n').collect();
    let lines: Vec<&str> = text.split('\n').collect();
    let line = text.as_bytes()[..start].iter().filter(|&&b| b == b'\n').count();
    let line_start = text[..start].rfind('\n').map(|i| i + 1).unwrap_or(0);
    let before = text[line_start..start].chars().count();
    let content: Vec<char> = lines[line].chars().collect();
    let mut k = 0;
    if tag && line > 0 {
        let mut from = line - 1;
        while from > 0 && lines[from].chars().all(|c| c.is_whitespace()) { from -= 1; }
        for n in from..line {
            let want = format!("{}: {}", n + 1, lines[n]);
            ensure!(out.get(k) == Some(&&want[..]), "preceding line {} is not quoted as {:?}:\n{}", n + 1, want, msg);
            k += 1;
        }
        ctx.label("preceding lines quoted");
        if line - from > 1 { ctx.label("several preceding lines quoted"); }
    }
    let prefix = format!("{},{}: ", line + 1, before + 1);
    let quoted = match out.get(k).and_then(|l| l.strip_prefix(&prefix[..])) {
        Some(q) => q.chars().collect::<Vec<char>>(),
        None => return fail(format!("expected a line starting with {:?}, found {:?}\n{}", prefix, out.get(k), msg)),
    };
    let pointer = match out.get(k + 1).and_then(|l| l.strip_prefix(&prefix[..])) {
        Some(p) => p,
        None => return fail(format!("expected the pointer in a line starting with {:?}, found {:?}\n{}", prefix, out.get(k + 1), msg)),
    };
    let pad = match pointer.strip_suffix('^') {
        Some(p) => p.chars().collect::<Vec<char>>(),
        None => return fail(format!("no pointer in {:?}", pointer)),
    };
    ensure!(pad.iter().all(|c| *c == ' ' || *c == '\t'), "pointer line {:?}", pointer);
    // The part of the line that is quoted starts so that the pointer is below the character.
    ensure!(pad.len() <= before, "pointer is at {} of the quote, but the character is at {}", pad.len(), before);
    let from = before - pad.len();
    ensure!(content[from..].starts_with(&quoted), "quoted {:?}, which is not in the line from character {}\n{:?}", quoted.iter().collect::<String>(), from, lines[line]);
    ensure!(pad.len() < quoted.len() || (before == content.len() && pad.len() == quoted.len()), "the character pointed at is not in the quote");
    for (i, c) in pad.iter().enumerate() {
        ensure!((*c == '\t') == (quoted[i] == '\t'), "the pointer is not aligned after tabs: {:?} below {:?}", pad, quoted);
    }
    if content.len() <= 75 {
        ensure!(quoted == content, "the line is not quoted whole: {:?}", quoted.iter().collect::<String>());
    } else {
        ctx.label("long line");
        let around = 20;
        ensure!(pad.len() >= around.min(before) && quoted.len() - pad.len() >= around.min(content.len() - before),
            "hardly anything is quoted around the character: {:?}", quoted.iter().collect::<String>());
    }
    if from > 0 { ctx.label("quote cut at the front"); }
    if lines[line][..start - line_start].chars().any(|c| c as u32 > 0x7f) { ctx.label("non-ASCII before the character"); }
    if before == content.len() { ctx.label("end of line"); }
    // More lines follow only for ranges over several lines, numbered upwards.
    let mut last = line + 1;
    for l in &out[k + 2..] {
        let n: usize = match l.split(',').next().and_then(|n| n.parse().ok()) { Some(n) => n, None => return fail(format!("unexpected line {:?}\n{}", l, msg)) };
        ensure!(n > last && n <= lines.len(), "line {} is quoted after line {}", n, last);
        last = n;
        ctx.label("range over several lines");
    }
    Ok(())
}

pub fn clone_error(e: &ParseError) -> ParseError {
    match e {
        ParseError::ExpectedWhitespace(i) => ParseError::ExpectedWhitespace(*i),
        ParseError::ExpectedNewLine(i) => ParseError::ExpectedNewLine(*i),
        ParseError::ExpectedSomething(i) => ParseError::ExpectedSomething(*i),
        ParseError::ExpectedNumber(i) => ParseError::ExpectedNumber(*i),
        ParseError::ParseNumberError(e, i) => ParseError::ParseNumberError(*e, *i),
        ParseError::ExpectedText(i) => ParseError::ExpectedText(*i),
        ParseError::EmptyTextNotAllowed(i) => ParseError::EmptyTextNotAllowed(*i),
        ParseError::ParseStringError(e, i) => ParseError::ParseStringError(*e, *i),
        ParseError::ExpectedTag(t, i) => ParseError::ExpectedTag(t.clone(), *i),
        ParseError::DidNotExpectTag(t, i) => ParseError::DidNotExpectTag(t.clone(), *i),
        ParseError::InvalidRule(m, i) => ParseError::InvalidRule(m, *i),
        ParseError::NoRules => ParseError::NoRules,
        ParseError::ExpectedEnd => ParseError::ExpectedEnd,
        ParseError::Conversion(m) => ParseError::Conversion(m.clone()),
    }
}

pub fn formatted(text: &str, e: Range<ParseError>) -> Result<String, Stop> {
    let w = sut("formatting an error", BIG, || { let mut w: Vec<u8> = vec![]; let r = ParseErrorHandler::new(text).write(&mut w, e); (w, r) })?;
    ensure!(w.1.is_ok(), "write: {:?}", w.1);
    match String::from_utf8(w.0) { Ok(s) => Ok(s), Err(_) => fail("message is not UTF-8".into()) }
}

/// A whole message about an error.
pub fn check_error_message(msg: &str, text: &str, e: &Range<ParseError>, ctx: &mut Ctx) -> Verdict {
    let name = format!("{}", e.data);
    let lower = name.to_lowercase();
    for m in mentions(&e.data) {
        ensure!(lower.contains(&m), "the error {:?} is shown as {:?}, which does not mention {:?}", e.data, name, m);
    }
    check_message(msg, &format!("Error {}", name), text, e.offset, matches!(e.data, ParseError::ExpectedTag(..)), ctx)
}

pub fn c11(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 6) {
        // The error of a real rejection.
        let mut gen = Gen::new(src, Cfg::default());
        let g = gen.grammar();
        let alpha = gen.alpha.clone();
        let s = compile(&Printer::plain().grammar(&g, &[]))?;
        let text = text_for(&g, src, &alpha, 0, 9);
        let e = match sut_within("parse()", 200_000, || parse(&s, &text, &mut vec![]))? {
            Some(Err(e)) => e,
            _ => return Err(Stop::Discard("document accepted")),
        };
        ctx.show(format!("text: {:?}\nerror: {:?}", text, e));
        let msg = formatted(&text, Range::new(e.offset, e.length).wrap(clone_error(&e.data)))?;
        let r = sut("parse_errstr()", 1_000_000, || parse_errstr(&s, &text, &mut vec![]))?;
        ensure!(r.as_ref().err() == Some(&msg), "parse_errstr gives {:?}\nformatted {:?}", r, msg);
        ctx.label("error of a rejection");
        let shown = ctx.shown.clone();
        check_error_message(&msg, &text, &e, ctx)?;
        ctx.eval(text.len() > 2, key(&[&shown]), || shown);
        return Ok(());
    }
    let mut text = gen_text(src);
    if stretch(&mut text, src, 500, 40_000) { ctx.label("very long line"); }
    if src.chance(1, 500) {
        // Many lines.
        let n = src.magnitude(8_000);
        let mut c = Cheap::new(src);
        let mut t = String::new();
        for _ in 0..n { t.push_str(c.pick(&["a", "", "  ", "é b;", "\t", "x\r", ""])); t.push('\n'); }
        text = if src.bool() { t + &text } else { text + "\n" + &t };
        ctx.label("many lines");
    }
    for _ in 0..3 {
        let bs: Vec<usize> = (0..=text.len()).filter(|&i| text.is_char_boundary(i)).collect();
        let a = src.below(bs.len());
        let b = match src.weighted(&[4, 3, 2]) { 0 => a, 1 => (a + src.below(4)).min(bs.len() - 1), _ => a + src.below(bs.len() - a) };
        let range = Range::new(bs[a], bs[b] - bs[a]);
        let e = gen_error(src);
        ctx.show(format!("text: {:?}\nrange: {}..{}\nerror: {:?}", text, bs[a], bs[b], e));
        let shown = ctx.shown.clone();
        if src.chance(1, 4) {
            let w = sut("write_msg()", BIG, || { let mut w: Vec<u8> = vec![]; let r = ParseErrorHandler::new(&text).write_msg(&mut w, range, "the message"); (w, r) })?;
            ensure!(w.1.is_ok(), "write_msg: {:?}", w.1);
            let msg = String::from_utf8(w.0).unwrap_or_default();
            check_message(&msg, "the message", &text, range.offset, false, ctx)?;
            ctx.label("write_msg");
        } else {
            let msg = formatted(&text, range.wrap(clone_error(&e)))?;
            check_error_message(&msg, &text, &range.wrap(e), ctx)?;
        }
        ctx.eval(text.contains('\n') || !text.is_ascii(), key(&[&shown]), || shown);
    }
    Ok(())
}

pub fn pinned_column() -> Verdict {
    let mut ctx = Ctx::default();
    let long: String = "é".repeat(120);
    for (t, o) in [("ééy", 4), ("a\n\tééy\n", 7), ("", 0), ("\n", 1), ("x\n\n \ny", 5), (&long[..], 200)] {
        let e = Range::empty(o).wrap(ParseError::ExpectedTag(Arc::new("x".into()), 1001));
        let m = formatted(t, Range::empty(o).wrap(clone_error(&e.data)))?;
        check_error_message(&m, t, &e, &mut ctx)?;
    }
    Ok(())
}
