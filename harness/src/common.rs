//! Calls into the library used by several properties.

use crate::engine::*;
use crate::gram::*;
use crate::model::{self, Item, Outcome, Settings};
use piston_meta::meta_rules::IndentSettings;
use piston_meta::*;

pub const BIG: u64 = 20_000_000;

/// Rule evaluations allowed for reading a grammar text.
pub fn compile(text: &str) -> Result<Syntax, Stop> {
    match sut("syntax()", BIG, || syntax(text))? {
        Ok(s) => Ok(s),
        Err(e) => fail(format!("syntax() rejected a valid grammar: {:?}\n{}", e, text)),
    }
}

/// The rules read by the built-in meta grammar, before optimization.
pub fn convert_text(text: &str) -> Result<Syntax, Stop> {
    convert_with(&bootstrap_rules(), text)
}

pub fn bootstrap_rules() -> Syntax {
    thread_local! { static R: Syntax = bootstrap::rules(); }
    R.with(|r| r.clone())
}

pub fn convert_with(rules: &Syntax, text: &str) -> Result<Syntax, Stop> {
    let mut tokens = vec![];
    match sut("parse of a grammar text", BIG, || parse(rules, text, &mut tokens))? {
        Ok(()) => {}
        Err(e) => return fail(format!("grammar text rejected: {:?}\n{}", e, text)),
    }
    let mut ignored = vec![];
    match sut("convert()", BIG, || bootstrap::convert(&tokens, &mut ignored))? {
        Ok(s) => {
            if !ignored.is_empty() { return fail(format!("convert() ignored {:?} of a valid grammar\n{}", ignored, text)); }
            Ok(s)
        }
        Err(()) => fail(format!("convert() rejected a valid grammar\n{}", text)),
    }
}

pub type Parsed = (Result<(), Range<ParseError>>, Vec<Item>);

pub fn lib_settings(s: &Settings) -> IndentSettings {
    IndentSettings { indent: s.indent, align_first: s.align_first, tab_spaces: s.tab_spaces }
}

/// Parses with the library, into a fresh buffer.
pub fn lib_parse(s: &Syntax, text: &str, set: &Settings, limit: u64) -> Result<Parsed, Stop> {
    let mut tokens = vec![];
    let r = sut("parse()", limit, || parse_with_indent(s, text, &mut tokens, &lib_settings(set)))?;
    Ok((r, tokens))
}

pub fn lib_parse_default(s: &Syntax, text: &str) -> Result<Parsed, Stop> {
    lib_parse(s, text, &Settings::default(), BIG)
}

/// The reference result, or the case is discarded as too costly.
pub fn reference(nodes: &[M], text: &str, set: &Settings, budget: u64) -> Result<Outcome, Stop> {
    model::run(nodes, text, set, budget).map_err(|_| Stop::Discard("reference evaluation over budget"))
}

/// A limit no correct evaluation comes near.
pub fn limit_for(o: &Outcome) -> u64 { o.steps * 50 + 100_000 }

pub fn gen_settings(src: &mut Src) -> Settings {
    if src.chance(1, 3) {
        Settings {
            indent: match src.known_size(20, 300) { Some(n) => n as u32, None => src.below(4) as u32 },
            align_first: !src.bool(),
            tab_spaces: if let Some(n) = src.known_size(20, 300) { n as _ } else { [4, 2, 1, 8, 3, 0][src.below(6)] },
        }
    } else { Settings::default() }
}

pub fn show_settings(s: &Settings) -> String {
    format!("indent={} align_first={} tab_spaces={}", s.indent, s.align_first, s.tab_spaces)
}

pub fn key(parts: &[&str]) -> u64 {
    let mut h = 1u64;
    for p in parts { h = h.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(p); }
    h
}

pub fn show_items(d: &[Item]) -> String {
    d.iter().map(|x| format!("{}..{} {:?}", x.offset, x.next_offset(), x.data)).collect::<Vec<_>>().join("\n  ")
}

/// Labels features of a grammar, so the distribution of generated cases is visible.
pub fn label_grammar(g: &Grammar, ctx: &mut Ctx) {
    for (name, f) in [
        ("grammar with lines", (|r| matches!(r, R::Lines { .. })) as fn(&R) -> bool),
        ("grammar with indented lines", |r| matches!(r, R::Lines { indent: true, .. })),
        ("grammar with separated list", |r| matches!(r, R::Sep { .. })),
        ("grammar with negative lookahead", |r| matches!(r, R::Not(_)) || matches!(r, R::Tag { not: true, .. })),
        ("grammar with choice", |r| matches!(r, R::Sel(v) if v.len() > 1)),
        ("grammar with node reference", |r| matches!(r, R::Ref { .. })),
        ("grammar with repetition", |r| matches!(r, R::Rep { .. })),
    ] {
        if g.any(f) { ctx.label(name); }
    }
}

pub fn end_of(e: &Range<ParseError>) -> usize { e.next_offset() }

/// Well-nested named nodes.
pub fn balanced(d: &[Item]) -> bool {
    let mut st = vec![];
    for x in d {
        match &x.data {
            MetaData::StartNode(n) => st.push(n.clone()),
            MetaData::EndNode(n) => if st.pop().as_ref() != Some(n) { return false; },
            _ => {}
        }
    }
    st.is_empty()
}
