//! C16, C17: numbers and text literals.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::model::json_literal;
use crate::print::*;
use crate::props::output::*;
use piston_meta::*;
use std::collections::HashMap;
use std::cell::RefCell;
use std::sync::Arc;

thread_local! { static CACHE: RefCell<HashMap<String, Syntax>> = RefCell::new(HashMap::new()); }

/// Compiles, remembering the result.
pub fn compiled(text: &str) -> Result<Syntax, Stop> {
    if let Some(s) = CACHE.with(|c| c.borrow().get(text).cloned()) { return Ok(s); }
    let s = compile(text)?;
    CACHE.with(|c| c.borrow_mut().insert(text.into(), s.clone()));
    Ok(s)
}

/// Reads what a rule reads from the front of a text, behind a prefix.
/// Returns the item of the rule and the text left over.
fn read_front(rule: &str, prefix: &str, text: &str) -> Result<Result<(Range<MetaData>, String), Range<ParseError>>, Stop> {
    let s = compiled(&format!("1 a = [{} {}:\"v\" ...\"\u{1}\"?:\"rest\"]", if prefix.is_empty() { ".w?".into() } else { quote(prefix) }, rule))?;
    let doc = format!("{}{}", prefix, text);
    let (r, d) = lib_parse_default(&s, &doc)?;
    if doc.len() % 3 == 0 {
        // Without a name the same is read.
        let s = compiled(&format!("1 a = [{} {} ...\"\u{1}\"?:\"rest\"]", if prefix.is_empty() { ".w?".into() } else { quote(prefix) }, rule))?;
        let (q, e) = lib_parse_default(&s, &doc)?;
        ensure!(q == r, "with a name: {:?}, without: {:?}", r, q);
        if r.is_ok() { ensure!(e.len() == 1 && d.len() == 2 && e[0] == d[1], "with a name:\n  {}\nwithout:\n  {}", show_items(&d), show_items(&e)); }
    }
    match r {
        Err(e) => {
            ensure!(e.next_offset() <= doc.len(), "error {:?} outside the text", e);
            Ok(Err(e))
        }
        Ok(()) => {
            ensure!(d.len() == 2, "unexpected data {}", show_items(&d));
            let rest = match &d[1].data { MetaData::String(n, v) if &***n == "rest" => v.to_string(), x => return fail(format!("{:?}", x)) };
            ensure!(d[0].offset == prefix.len(), "range starts at {}, not at {}", d[0].offset, prefix.len());
            ensure!(d[0].next_offset() + rest.len() == doc.len(), "range ends at {}, but {:?} is left of {:?}", d[0].next_offset(), rest, doc);
            Ok(Ok((d[0].clone(), rest)))
        }
    }
}

// ------------------------------------------------------------------ C16

/// Exact decimal digits of a positive double: (digits before the point, digits after it).
fn exact(x: f64) -> (Vec<u8>, Vec<u8>) {
    let s = format!("{:.1100}", x);
    let (a, b) = s.split_once('.').unwrap();
    (a.bytes().map(|c| c - b'0').collect(), b.bytes().map(|c| c - b'0').collect())
}

/// The exact decimal expansion of the middle between two positive doubles.
fn middle(x: f64, y: f64) -> String {
    let ((ai, af), (bi, bf)) = (exact(x), exact(y));
    let n = ai.len().max(bi.len());
    let mut a: Vec<u8> = vec![0; n - ai.len()];
    a.extend(&ai);
    a.extend(&af);
    let mut b: Vec<u8> = vec![0; n - bi.len()];
    b.extend(&bi);
    b.extend(&bf);
    let mut sum = vec![0u8; a.len() + 1];
    let mut carry = 0;
    for i in (0..a.len()).rev() {
        let s = a[i] + b[i] + carry;
        sum[i + 1] = s % 10;
        carry = s / 10;
    }
    sum[0] = carry;
    sum.push(0);
    let mut rem = 0;
    let mut o = String::new();
    for (i, d) in sum.iter().enumerate() {
        if i == n + 1 { o.push('.'); }
        let v = rem * 10 + d;
        o.push((b'0' + v / 2) as char);
        rem = v % 2;
    }
    let o = o.trim_start_matches('0').trim_end_matches('0').to_string();
    let o = if o.starts_with('.') { format!("0{}", o) } else { o };
    o.trim_end_matches('.').to_string()
}

fn digits(src: &mut Src, n: usize) -> String {
    let mode = src.weighted(&[4, 1, 1]);
    (0..n).map(|_| match mode { 1 => '0', 2 => '9', _ => (b'0' + src.below(10) as u8) as char }).collect()
}

fn with_underscores(s: &str, src: &mut Src) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    for i in 0..c.len() {
        o.push(c[i]);
        // After a digit, with more of the number behind.
        if i + 1 < c.len() && c[i].is_ascii_digit() && src.chance(1, if c[i + 1].is_ascii_digit() { 3 } else { 4 }) {
            o.push('_');
            if src.chance(1, 8) { o.push('_'); }
        }
    }
    o
}

pub fn c16(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    // A literal, and the value it has to have, where known beforehand.
    let mut known: Option<f64> = None;
    let unsigned = match src.weighted(&[6, 3, 3, 3, 2]) {
        0 => {
            let n = match src.weighted(&[6, 3, 1]) { 0 => src.int(1, 4), 1 => src.int(5, 25), _ => src.int(26, 400) };
            let mut o = digits(src, n);
            if src.chance(1, 300) { let z = src.magnitude(3_000); o = format!("{}{}", "0".repeat(z), o); }
            if src.bool() {
                let n = match src.weighted(&[6, 3, 1]) { 0 => src.int(1, 4), 1 => src.int(5, 25), _ => src.int(26, 400) };
                o.push('.');
                o.push_str(&digits(src, n));
                if src.chance(1, 300) { let mut c = Cheap::new(src); for _ in 0..src.magnitude(3_000) { o.push((b'0' + c.below(10) as u8) as char); } }
                // Digits on one side of the point only.
                match src.below(12) {
                    0 => { o.truncate(o.find('.').unwrap() + 1); ctx.label("point last"); }
                    1 => { o = o.split_off(o.find('.').unwrap()); ctx.label("point first"); }
                    _ => {}
                }
            }
            o
        }
        1 => {
            // Shortest spelling of a double.
            let x = any_f64(src).abs();
            known = Some(x);
            ctx.label("shortest spelling");
            match src.below(3) { 0 => format!("{:?}", x), 1 => format!("{}", x), _ => format!("{:e}", x) }
        }
        2 => {
            let x = any_f64(src).abs();
            known = Some(x);
            ctx.label("17 digits");
            format!("{:.16e}", x)
        }
        3 => {
            // Halfway between neighbours.
            let bits = any_f64(src).abs().to_bits().min(0x7fef_ffff_ffff_fffe);
            let (x, y) = (f64::from_bits(bits), f64::from_bits(bits + 1));
            let mut m = middle(x, y);
            ctx.label("halfway between two doubles");
            known = Some(match src.below(3) {
                0 => if bits & 1 == 0 { x } else { y },
                1 => { if !m.contains('.') { m.push('.'); } m.push_str("0001"); y }
                _ => {
                    // Just below: lower the last digit and go on with nines.
                    let mut c: Vec<char> = m.chars().collect();
                    let k = c.iter().rposition(|c| c.is_ascii_digit() && *c != '0').unwrap();
                    c[k] = (c[k] as u8 - 1) as char;
                    for c in &mut c[k + 1..] { if *c == '0' { *c = '9'; } }
                    m = c.into_iter().collect();
                    if !m.contains('.') { m.push('.'); }
                    m.push_str("9999");
                    x
                }
            });
            m
        }
        _ => src.pick(&["1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.79769313486231580793e308", "1e309", "0e999", "5e-324",
            "2e-324", "3e-324", "1e-400", "2.2250738585072011e-308", "9007199254740993", "0.3", "123456789012345678", "1e99999999999999999999",
            "1e-99999999999999999999", "0e99999999999999999999", "4.35", "0.1", "000", "8.5e0"]).to_string(),
    };
    let mut lit = unsigned;
    if known.is_none() && !lit.contains('e') && src.chance(1, 3) {
        let e = match src.weighted(&[4, 2, 1]) { 0 => src.int(0, 30), 1 => src.int(0, 400), _ => match src.known_size(4, 100_000) { Some(n) => n, None => src.int(0, 100_000) } };
        lit.push(if src.bool() { 'E' } else { 'e' });
        lit.push_str(*src.pick(&["", "-", "+"]));
        if src.chance(1, 8) { lit.push_str("00"); }
        lit.push_str(&e.to_string());
    }
    if !lit.starts_with('.') && src.chance(1, 6) { lit = format!("00{}", lit); }
    let sign = match src.weighted(&[4, 2, 1]) { 0 => "", 1 => "-", _ => "+" };
    let plain = format!("{}{}", sign, lit);
    let value: f64 = plain.parse().unwrap();
    if let Some(k) = known {
        let k = if sign == "-" { -k } else { k };
        ensure!(k.to_bits() == value.to_bits(), "harness: {} should be {:?}", plain, k);
    }
    let us = src.bool();
    let spelled = if us { with_underscores(&plain, src) } else { plain.clone() };
    let prefix = *src.pick(&["", "é", "x", "日"]);
    let has_exp = plain.contains(|c| c == 'e' || c == 'E');
    let mut tails = vec!["", " ", "x", ",", "+", "-", "-2", "+3", "é", ")", "\"", "\n"];
    if plain.contains('.') || has_exp { tails.push(".5"); }
    if has_exp { tails.push("e3"); }
    if !us { tails.push("_1"); tails.push("_"); }
    let tail = *src.pick(&tails);
    let rule = if us { ".$_" } else { ".$" };
    let text = format!("{}{}", spelled, tail);
    ctx.show(format!("rule: {}\ntext: {:?} behind {:?}", rule, clip(&text, 500), prefix));
    let r = read_front(rule, prefix, &text)?;
    let shown = ctx.shown.clone();
    if value.is_infinite() {
        ctx.label("too large");
        match r {
            Ok(x) => return fail(format!("a number too large for a double is read as {:?}", x.0.data)),
            Err(e) => {
                ensure!(matches!(e.data, ParseError::ParseNumberError(..)), "error {:?}", e);
                ensure!(e.offset >= prefix.len() && e.next_offset() <= prefix.len() + spelled.len(), "error {:?} is not at the number", e);
            }
        }
    } else {
        match r {
            Err(e) => return fail(format!("rejected: {:?}", e)),
            Ok((d, rest)) => {
                ensure!(rest == tail, "read up to {:?}, the number is followed by {:?}", rest, tail);
                match d.data {
                    MetaData::F64(ref n, v) => ensure!(&***n == "v" && v.to_bits() == value.to_bits(), "read {} = {:?} ({:016x}), nearest double is {:?} ({:016x})", n, v, v.to_bits(), value, value.to_bits()),
                    ref x => return fail(format!("read {:?}", x)),
                }
            }
        }
    }
    if spelled.contains('_') { ctx.label("underscores"); }
    if has_exp { ctx.label("exponent"); }
    if sign != "" { ctx.label("sign"); }
    if tail != "" { ctx.label("more text behind"); }
    ctx.eval(plain.len() >= 3, key(&[rule, &text]), || shown);
    Ok(())
}

pub fn pinned_numbers() -> Verdict {
    for t in ["0.3", "+5", "123456789012345678", "-0", "1e-400", "0.1", "1e23", "8.5", "1e22"] {
        let v: f64 = t.parse().unwrap();
        match read_front(".$", "", t)? {
            Ok((d, _)) => ensure!(matches!(d.data, MetaData::F64(_, x) if x.to_bits() == v.to_bits()), "{} is read as {:?}", t, d.data),
            Err(e) => return fail(format!("{}: {:?}", t, e)),
        }
    }
    for t in ["1e999", "-1e999", "1e99999999999999999999"] {
        ensure!(read_front(".$", "", t)?.is_err(), "{} is accepted", t);
    }
    for t in ["", "x", "-", "+", "_1"] {
        ensure!(read_front(".$", "", t)?.is_err() && read_front(".$_", "", t)?.is_err(), "{:?} is accepted", t);
    }
    let s = compiled("1 a = [.$:\"x\" \"+\" .$:\"y\"]")?;
    ensure!(lib_parse_default(&s, "1e5+3")?.0.is_ok(), "1e5+3");
    Ok(())
}

// ------------------------------------------------------------------ C17

fn plain_char(src: &mut Src) -> char {
    let c = any_char(src);
    if c < ' ' { c } else { c }
}

/// A JSON spelling: control characters are always escaped.
fn json_spell(s: &str, src: &mut Src) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c < ' ' {
            let short = match c { '\u{8}' => "\\b", '\u{c}' => "\\f", '\n' => "\\n", '\r' => "\\r", '\t' => "\\t", _ => "" };
            if !short.is_empty() && src.bool() { o.push_str(short); } else if src.bool() { o.push_str(&format!("\\u{:04x}", c as u32)); } else { o.push_str(&format!("\\u{:04X}", c as u32)); }
        } else { spell_char(c, src, &mut o); }
    }
    o.push('"');
    o
}

fn expect_string(rule: &str, prefix: &str, lit: &str, tail: &str, want: &str) -> Verdict {
    match read_front(rule, prefix, &format!("{}{}", lit, tail))? {
        Err(e) => fail(format!("rejected: {:?}", e)),
        Ok((d, rest)) => {
            ensure!(rest == tail, "read up to {:?}, the literal is followed by {:?}", rest, tail);
            match d.data {
                MetaData::String(ref n, ref v) if &***n == "v" => ensure!(&***v == want, "read as {:?}, it denotes {:?}", v, want),
                ref x => return fail(format!("read {:?}", x)),
            }
            Ok(())
        }
    }
}

pub fn c17(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let n = match src.known_size(60, 300) { Some(n) => n, None => src.len(14) };
    let mut s: String = (0..n).map(|_| plain_char(src)).collect();
    if let Some(w) = src.known(20) { s.insert_str(0, w); }
    let longer = stretch(&mut s, src, 500, 40_000);
    let n = s.chars().count();
    if longer { ctx.label("long literal"); }
    let prefix = *src.pick(&["", "é", "x"]);
    let tail = *src.pick(&["", "\"", "x", "\\", " \"", "é", "\"\"", "\n"]);
    let empty_ok = src.bool();
    let rule = if empty_ok { ".t?" } else { ".t!" };
    match src.weighted(&[5, 2, 3]) {
        0 => {
            let lit = json_spell(&s, src);
            ctx.show(format!("rule: {}\nliteral: {} behind {:?}, before {:?}", rule, lit, prefix, tail));
            let shown = ctx.shown.clone();
            if s.is_empty() && !empty_ok {
                ctx.label("empty literal refused");
                match read_front(rule, prefix, &format!("{}{}", lit, tail))? {
                    Ok(x) => return fail(format!("an empty literal is read as {:?}", x)),
                    Err(e) => ensure!(e.offset >= prefix.len() && e.next_offset() <= prefix.len() + 2 && matches!(e.data, ParseError::EmptyTextNotAllowed(_)), "error {:?}", e),
                }
            } else {
                ctx.label(if lit.contains('\\') { "literal with escapes" } else { "plain literal" });
                expect_string(rule, prefix, &lit, tail, &s)?;
            }
            ctx.eval(lit.len() > 4, key(&[rule, &lit, tail]), || shown);
        }
        1 => {
            let mut w: Vec<u8> = vec![];
            json::write_string(&mut w, &s).unwrap();
            let lit = match String::from_utf8(w) { Ok(l) => l, Err(_) => return fail("write_string: not UTF-8".into()) };
            ctx.show(format!("written: {}", lit));
            let shown = ctx.shown.clone();
            ctx.label("round trip through the writer");
            expect_string(".t?", prefix, &lit, tail, &s)?;
            ctx.eval(lit.len() > 4, key(&["w", &lit, tail]), || shown);
        }
        _ => {
            // Malformed.
            let good = json_spell(&s, src);
            let (lit, at, kind) = if src.chance(1, 3) {
                let mut l = good.clone();
                l.pop();
                if src.chance(1, 3) { l.push_str("\\\""); }
                if src.chance(1, 4) { l.push('\\'); }
                (l, None, "unterminated literal")
            } else {
                let bad = match src.below(3) {
                    0 => { let c = loop { let c = any_char(src); if !"\"\\/bfnrtu".contains(c) { break c; } if src.rec.len() > 50_000 { break 'x'; } }; format!("\\{}", c) }
                    1 => {
                        let k = src.below(4);
                        let mut h: Vec<char> = (0..4).map(|_| *src.pick(&['0', 'a', 'F', '9'])).collect();
                        h[k] = *src.pick(&['g', 'G', ' ', 'é', '-', '+', 'x', '.']);
                        format!("\\u{}", h.iter().collect::<String>())
                    }
                    _ => {
                        // A surrogate that is alone.
                        format!("\\u{:04x}", if src.bool() { src.int(0xd800, 0xdbff) } else { src.int(0xdc00, 0xdfff) })
                    }
                };
                // Between two characters of the literal.
                let t: String = s.chars().collect::<Vec<_>>().into_iter().take(src.below(n + 1)).collect();
                let mut a = json_spell(&t, src);
                a.pop();
                let at = a.len();
                let mut b = json_spell("z", src);
                b.remove(0);
                (format!("{}{}{}", a, bad, b), Some((at, bad.len())), "invalid escape")
            };
            ctx.show(format!("rule: {}\nliteral: {} behind {:?}", rule, lit, prefix));
            let shown = ctx.shown.clone();
            ctx.label(kind);
            if let Some((_, Ok(_))) = json_literal(&lit) { return fail(format!("harness: {} is fine", lit)); }
            match read_front(rule, prefix, &lit)? {
                Ok(x) => return fail(format!("malformed, but read as {:?}", x)),
                Err(e) => match at {
                    None => ensure!(e.offset >= prefix.len(), "error {:?}", e),
                    Some((a, l)) => ensure!(e.offset >= prefix.len() + a && e.offset < prefix.len() + a + l && e.length <= l && matches!(e.data, ParseError::ParseStringError(..)),
                        "error {:?}, the invalid escape is at {}..{}", e, prefix.len() + a, prefix.len() + a + l),
                },
            }
            ctx.eval(lit.len() > 4, key(&[rule, &lit, "bad"]), || shown);
        }
    }
    Ok(())
}

/// Characters written as a pair of surrogates are valid JSON.
pub fn surrogate_pairs() -> Verdict {
    expect_string(".t?", "", "\"\\ud83d\\ude00\"", "", "\u{1f600}")?;
    expect_string(".t?", "", "\"a\\uD834\\uDD1Eb\"", "", "a\u{1d11e}b")
}

pub fn pinned_text() -> Verdict {
    expect_string(".t?", "", "\"\"", "", "")?;
    let _ = Arc::new(0);
    ensure!(read_front(".t!", "", "\"\"")?.is_err(), "`.t!` reads an empty literal");
    for t in ["\"", "\"a", "\"\\\"", "\"\\", "", "a", "\"\\x\"", "\"\\u12\"", "\"\\é\""] {
        ensure!(read_front(".t?", "", t)?.is_err(), "{:?} is accepted", t);
    }
    Ok(())
}
