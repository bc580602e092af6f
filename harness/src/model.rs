//! Reference interpreter of grammars, written from the documented meaning of the rules.
//! Works on immutable positions and returns values; shares no code with the library.

use crate::gram::{K, M};
use piston_meta::{MetaData, ParseError, Range};
use read_token::{ParseNumberError, ParseStringError};
use std::sync::Arc;

pub type Item = Range<MetaData>;

pub struct Settings { pub indent: u32, pub align_first: bool, pub tab_spaces: u8 }

impl Default for Settings {
    fn default() -> Settings { Settings { indent: 0, align_first: true, tab_spaces: 4 } }
}

pub struct Run<'a> {
    nodes: &'a [M],
    text: &'a str,
    set: &'a Settings,
    quiet: u32,
    pub steps: u64,
    budget: u64,
    depth: u32,
    /// Evaluations of choices.
    pub selects: u64,
    /// End of the deepest error and all errors that end there.
    pub deepest: usize,
    pub errors: Vec<Range<ParseError>>,
    /// Of failed choices, at the same depth: what an optimized choice may report instead.
    pub select_errors: Vec<Range<ParseError>>,
    pub stats: Stats,
}

#[derive(Default, Clone, Debug)]
pub struct Stats { pub backtracks: u64, pub dropped_data: u64, pub lines: u64, pub refs: u64, pub lookaheads: u64 }

pub struct OutOfBudget;

pub struct Outcome {
    /// None when rejected.
    pub data: Option<Vec<Item>>,
    pub steps: u64,
    pub selects: u64,
    pub deepest: usize,
    pub errors: Vec<Range<ParseError>>,
    pub select_errors: Vec<Range<ParseError>>,
    pub stats: Stats,
}

type Ev = Result<Option<(usize, Vec<Item>)>, OutOfBudget>;

pub fn run(nodes: &[M], text: &str, set: &Settings, budget: u64) -> Result<Outcome, OutOfBudget> {
    let mut r = Run {
        nodes, text, set, quiet: 0, steps: 0, budget, depth: 0, selects: 0,
        deepest: 0, errors: vec![], select_errors: vec![], stats: Stats::default(),
    };
    let res = r.eval(&nodes[nodes.len() - 1], 0, set.indent)?;
    let data = match res {
        Some((end, data)) if end == text.len() => Some(data),
        Some((end, _)) => { r.err(end, 0, ParseError::ExpectedEnd); None }
        None => None,
    };
    Ok(Outcome { data, steps: r.steps, selects: r.selects, deepest: r.deepest, errors: r.errors,
        select_errors: r.select_errors, stats: r.stats })
}

/// Evaluates one rule at a place of the text: where it ends, and its data.
pub fn run_at(nodes: &[M], m: &M, text: &str, pos: usize, set: &Settings, budget: u64) -> Result<(Option<(usize, Vec<Item>)>, Outcome), OutOfBudget> {
    let mut r = Run {
        nodes, text, set, quiet: 0, steps: 0, budget, depth: 0, selects: 0,
        deepest: 0, errors: vec![], select_errors: vec![], stats: Stats::default(),
    };
    let res = r.eval(m, pos, set.indent)?;
    Ok((res, Outcome { data: None, steps: r.steps, selects: r.selects, deepest: r.deepest, errors: r.errors,
        select_errors: r.select_errors, stats: r.stats }))
}

fn ws_len(s: &str) -> usize {
    s.char_indices().find(|&(_, c)| !c.is_whitespace()).map(|(i, _)| i).unwrap_or(s.len())
}

impl<'a> Run<'a> {
    fn err(&mut self, pos: usize, len: usize, e: ParseError) {
        if self.quiet > 0 { return; }
        let end = pos + len;
        if end > self.deepest { self.errors.clear(); self.select_errors.clear(); self.deepest = end; }
        if end == self.deepest {
            let e = Range::new(pos, len).wrap(e);
            if !self.errors.contains(&e) { self.errors.push(e); }
        }
    }

    fn rest(&self, pos: usize) -> &'a str { &self.text[pos..] }

    fn eval(&mut self, m: &M, pos: usize, indent: u32) -> Ev {
        self.steps += 1;
        self.depth += 1;
        if self.steps > self.budget || self.depth > 2500 { return Err(OutOfBudget); }
        let r = self.eval_inner(m, pos, indent);
        self.depth -= 1;
        r
    }

    fn eval_inner(&mut self, m: &M, pos: usize, indent: u32) -> Ev {
        let text = self.rest(pos);
        let id = m.id;
        match &m.k {
            K::Ws(opt) => {
                let n = ws_len(text);
                if n == 0 && !opt { self.err(pos, 0, ParseError::ExpectedWhitespace(id)); return Ok(None); }
                Ok(Some((pos + n, vec![])))
            }
            K::Tag { text: t, not, inv, prop } => {
                let found = text.as_bytes().starts_with(t.as_bytes());
                if found == *not {
                    if *not { self.err(pos, t.len(), ParseError::DidNotExpectTag(Arc::new(t.clone()), id)); }
                    else { self.err(pos, 0, ParseError::ExpectedTag(Arc::new(t.clone()), id)); }
                    return Ok(None);
                }
                let len = if *not { 0 } else { t.len() };
                Ok(Some((pos + len, prop.iter().map(|p|
                    Range::new(pos, len).wrap(MetaData::Bool(Arc::new(p.clone()), !*inv))).collect())))
            }
            K::Until { ws, any, opt, prop } => {
                let n = text.char_indices()
                    .find(|&(_, c)| any.chars().any(|a| a == c) || (*ws && c.is_whitespace()))
                    .map(|(i, _)| i).unwrap_or(text.len());
                if n == 0 && !opt { self.err(pos, 0, ParseError::ExpectedSomething(id)); return Ok(None); }
                Ok(Some((pos + n, prop.iter().map(|p| Range::new(pos, n).wrap(
                    MetaData::String(Arc::new(p.clone()), Arc::new(text[..n].to_string())))).collect())))
            }
            K::Text { empty, prop } => {
                match json_literal(text) {
                    None => { self.err(pos, 0, ParseError::ExpectedText(id)); Ok(None) }
                    Some((n, _)) if n == 2 && !empty => {
                        self.err(pos, 2, ParseError::EmptyTextNotAllowed(id));
                        Ok(None)
                    }
                    Some((_, Err((off, len, e)))) => {
                        self.err(pos + off, len, ParseError::ParseStringError(e, id));
                        Ok(None)
                    }
                    Some((n, Ok(s))) => Ok(Some((pos + n, prop.iter().map(|p| Range::new(pos, n).wrap(
                        MetaData::String(Arc::new(p.clone()), Arc::new(s.clone())))).collect()))),
                }
            }
            K::Num { us, prop } => {
                match number_literal(text, *us) {
                    None => { self.err(pos, 0, ParseError::ExpectedNumber(id)); Ok(None) }
                    Some((n, Err(e))) => { self.err(pos, n, ParseError::ParseNumberError(e, id)); Ok(None) }
                    Some((n, Ok(v))) => Ok(Some((pos + n, prop.iter().map(|p| Range::new(pos, n).wrap(
                        MetaData::F64(Arc::new(p.clone()), v))).collect()))),
                }
            }
            K::Sel(v) => {
                self.selects += 1;
                for m in v {
                    let before = self.deepest;
                    if let Some(x) = self.eval(m, pos, indent)? { return Ok(Some(x)); }
                    if self.deepest > before { self.stats.backtracks += 1; }
                }
                if v.is_empty() {
                    self.err(pos, 0, ParseError::InvalidRule("`Select` requires at least one sub rule", id));
                }
                if self.quiet == 0 && self.deepest == pos {
                    self.select_errors.push(Range::new(pos, 0).wrap(ParseError::ExpectedSomething(id)));
                }
                Ok(None)
            }
            K::Seq(v) => {
                let mut at = pos;
                let mut data = vec![];
                for m in v {
                    match self.eval(m, at, indent)? {
                        Some((end, d)) => { at = end; data.extend(d); }
                        None => { self.stats.dropped_data += data.len() as u64; return Ok(None); }
                    }
                }
                Ok(Some((at, data)))
            }
            K::Sep { by, rule, opt, trail } => {
                let mut at;
                let mut data;
                match self.eval(rule, pos, indent)? {
                    None => return Ok(if *opt { Some((pos, vec![])) } else { None }),
                    Some((end, d)) => { at = end; data = d; }
                }
                loop {
                    let (end, d) = match self.eval(by, at, indent)? { None => break, Some(x) => x };
                    at = end;
                    data.extend(d);
                    match self.eval(rule, at, indent)? {
                        Some((end, d)) => { at = end; data.extend(d); }
                        None if *trail => break,
                        None => { self.stats.dropped_data += data.len() as u64; return Ok(None); }
                    }
                }
                Ok(Some((at, data)))
            }
            K::Rep { rule, opt } => {
                let mut at = pos;
                let mut data = vec![];
                let mut n = 0u64;
                while let Some((end, d)) = self.eval(rule, at, indent)? {
                    at = end;
                    data.extend(d);
                    n += 1;
                }
                Ok(if n == 0 && !opt { None } else { Some((at, data)) })
            }
            K::Opt(r) => Ok(Some(self.eval(r, pos, indent)?.unwrap_or((pos, vec![])))),
            K::Not(r) => {
                self.stats.lookaheads += 1;
                self.quiet += 1;
                let res = self.eval(r, pos, indent);
                self.quiet -= 1;
                match res? {
                    Some((end, _)) => {
                        let t = self.text[pos..end].to_string();
                        self.err(pos, end - pos, ParseError::DidNotExpectTag(Arc::new(t), id));
                        Ok(None)
                    }
                    None => Ok(Some((pos, vec![]))),
                }
            }
            K::Ref { index, prop, .. } => {
                self.stats.refs += 1;
                let i = match index {
                    Some(i) => *i,
                    None => {
                        self.err(pos, 0, ParseError::InvalidRule("Node rule is not updated to reference", id));
                        return Ok(None);
                    }
                };
                let nodes = self.nodes;
                match self.eval(&nodes[i], pos, indent)? {
                    None => Ok(None),
                    Some((end, d)) => Ok(Some((end, match prop {
                        None => d,
                        Some(p) => {
                            let p = Arc::new(p.clone());
                            let mut v = vec![Range::new(pos, 0).wrap(MetaData::StartNode(p.clone()))];
                            v.extend(d);
                            v.push(Range::new(pos, end - pos).wrap(MetaData::EndNode(p)));
                            v
                        }
                    }))),
                }
            }
            K::Lines { rule, indent: sensitive } => {
                self.stats.lines += 1;
                let mut at = pos;
                let mut data = vec![];
                let mut at_line = true;
                let mut level = indent;
                let mut aligned = !(self.set.align_first);
                loop {
                    let blank = ws_len(self.rest(at));
                    if at + blank == self.text.len() { at += blank; break; }
                    if let Some(i) = self.text[at..at + blank].rfind('\n') { at += i + 1; at_line = true; }
                    if !at_line {
                        self.err(at, 0, ParseError::ExpectedNewLine(id));
                        return Ok(None);
                    }
                    let res = if *sensitive {
                        match self.indention(at, level, &mut aligned) {
                            None => None,
                            Some((start, lv)) => { level = lv; self.eval(rule, start, level + 1)? }
                        }
                    } else {
                        self.eval(rule, at, indent)?
                    };
                    match res {
                        None => break,
                        Some((end, d)) => {
                            data.extend(d);
                            let t = &self.text[at..end];
                            at_line = t.chars().rev().take_while(|c| c.is_whitespace()).any(|c| c == '\n');
                            at = end;
                        }
                    }
                }
                Ok(Some((at, data)))
            }
        }
    }

    /// Reads the indention of a line: where the item starts, and the level of the block.
    fn indention(&self, at: usize, level: u32, aligned: &mut bool) -> Option<(usize, u32)> {
        let tab = self.set.tab_spaces as u32;
        let b = self.text.as_bytes();
        // The line starts with white space of some width; it is read up to where
        // the level is reached when the line is not the first one.
        let mut at = at;
        let mut width = 0;
        while width < level {
            match b.get(at) {
                Some(b' ') => width += 1,
                Some(b'\t') => width += tab,
                _ => return None,
            }
            at += 1;
        }
        if *aligned {
            let more = matches!(b.get(at), Some(b' ') | Some(b'\t'));
            return if more || width > level { None } else { Some((at, level)) };
        }
        *aligned = true;
        loop {
            match b.get(at) {
                Some(b' ') => width += 1,
                Some(b'\t') => width += tab,
                _ => return Some((at, width)),
            }
            at += 1;
        }
    }
}

/// Reads a JSON string literal: its length, and the decoded text or (offset, length, error).
pub fn json_literal(s: &str) -> Option<(usize, Result<String, (usize, usize, ParseStringError)>)> {
    if !s.starts_with('"') { return None; }
    // Up to the closing quote.
    let mut cs: Vec<(usize, char)> = vec![];
    let (mut escaped, mut closed) = (false, false);
    for (i, c) in s.char_indices() {
        cs.push((i, c));
        if i == 0 { continue; }
        if escaped { escaped = false; } else if c == '\\' { escaped = true; } else if c == '"' { closed = true; break; }
    }
    if !closed { return None; }
    let close = cs.len() - 1;
    let n = cs[close].0 + 1;
    let mut out = String::new();
    let mut i = 1;
    while i < close {
        let (off, c) = cs[i];
        if c != '\\' { out.push(c); i += 1; continue; }
        let (eoff, e) = cs[i + 1];
        i += 2;
        out.push(match e {
            '"' | '\\' | '/' => e,
            'b' => '\u{8}', 'f' => '\u{c}', 'n' => '\n', 'r' => '\r', 't' => '\t',
            'u' => {
                let mut code = 0;
                for j in 0..4 {
                    let (hoff, h) = cs[i + j];
                    match h.to_digit(16) {
                        Some(d) => code = code * 16 + d,
                        None => return Some((n, Err((hoff, h.len_utf8(), ParseStringError::ExpectedHexadecimal)))),
                    }
                }
                i += 4;
                match char::from_u32(code) {
                    Some(c) => c,
                    None => return Some((n, Err((eoff + 1, 3, ParseStringError::ExpectedValidUnicode)))),
                }
            }
            _ => { let _ = off; return Some((n, Err((eoff, e.len_utf8(), ParseStringError::ExpectedValidEscapeCharacter)))); }
        });
    }
    Some((n, Ok(out)))
}

/// Reads a number: its length and value.
pub fn number_literal(s: &str, us: bool) -> Option<(usize, Result<f64, ParseNumberError>)> {
    let b = s.as_bytes();
    let mut i = 0;
    if matches!(b.get(0), Some(b'+') | Some(b'-')) { i = 1; }
    let (mut digit, mut dot, mut exp, mut exp_sign, mut exp_digit) = (false, false, false, false, false);
    while let Some(&c) = b.get(i) {
        match c {
            b'0'..=b'9' => { digit = true; if exp { exp_digit = true; } }
            b'_' if us && digit => {}
            b'.' if !dot && !exp_digit => dot = true,
            b'e' | b'E' if !exp && i > 0 => exp = true,
            b'+' | b'-' if exp && !exp_sign && !exp_digit => exp_sign = true,
            _ => break,
        }
        i += 1;
    }
    if i == 0 { return None; }
    let lit: String = s[..i].chars().filter(|&c| !(us && c == '_')).collect();
    let lit = &lit[..];
    Some((i, if lit == "+" || lit == "-" { Err(ParseNumberError::ExpectedDigits) }
    else {
        match lit.parse::<f64>() {
            Err(_) => Err(ParseNumberError::Invalid),
            Ok(v) if v == f64::INFINITY => Err(ParseNumberError::OverflowInfinity),
            Ok(v) if v == f64::NEG_INFINITY => Err(ParseNumberError::OverflowNegInfinity),
            Ok(v) => Ok(v),
        }
    }))
}

/// Compares meta data exactly, numbers by their bits.
pub fn same(a: &[Item], b: &[Item]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_item(a, b))
}

pub fn same_item(a: &Item, b: &Item) -> bool {
    a.offset == b.offset && a.length == b.length && same_data(&a.data, &b.data)
}

pub fn same_data(a: &MetaData, b: &MetaData) -> bool {
    match (a, b) {
        (MetaData::F64(n, x), MetaData::F64(m, y)) => n == m && x.to_bits() == y.to_bits(),
        (a, b) => a == b,
    }
}

pub fn same_values(a: &[Item], b: &[Item]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_data(&a.data, &b.data))
}
