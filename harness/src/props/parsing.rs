//! C01-C05: documents against grammars.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gram::*;
use crate::large::large;
use crate::model::{same, Item, Outcome, Settings};
use crate::print::Printer;
use crate::textgen::*;
use piston_meta::*;
use std::sync::Arc;

struct Case { g: Grammar, gtext: String, alpha: Vec<String>, nodes: Vec<M>, syntax: Syntax, built: bool }

pub fn grammar_cfg(src: &mut Src) -> Cfg {
    let mut c = Cfg::default();
    match src.weighted(&[6, 3, 2, 2, 2]) {
        1 => { c.w[6] = 26; c.width = 5; }                 // choice-heavy
        2 => { c.w[10] = 16; c.w[11] = 12; }               // lines
        3 => { c.w[9] = 14; c.w[8] = 12; }                 // repetition
        4 => { c.w[13] = 10; c.w[12] = 10; c.max_nodes = 2; } // lookahead, optional
        _ => {}
    }
    c
}

fn gen_case(src: &mut Src) -> Result<Case, Stop> {
    let mut cfg = grammar_cfg(src);
    // Built by a program instead of compiled.
    let built = src.chance(1, 6);
    cfg.not_tag = built;
    let mut gen = Gen::new(src, cfg);
    let mut g = gen.grammar();
    let alpha = gen.alpha.clone();
    if built && src.chance(1, 3) { g.hollow(src); }
    let mut gtext = Printer::plain().grammar(&g, &[]);
    let nodes = g.number();
    let syntax = if built {
        gtext = format!("// Built directly.\n{}", gtext);
        let optimized = src.bool();
        sut("building", BIG, || { let s = g.build(); if optimized { s.optimize() } else { s } })?
    } else { compile(&gtext)? };
    Ok(Case { g, gtext, alpha, nodes, syntax, built })
}

fn large_case(g: Grammar, alpha: Vec<String>) -> Result<Case, Stop> {
    let gtext = Printer::plain().grammar(&g, &[]);
    let nodes = g.number();
    let syntax = compile(&gtext)?;
    Ok(Case { g, gtext, alpha, nodes, syntax, built: false })
}

fn gen_text(c: &Case, src: &mut Src, set: &Settings, mutations: u64) -> String {
    text_for(&c.g, src, &c.alpha, set.indent as usize, mutations)
}

pub fn describe(gtext: &str, text: &str, set: &Settings) -> String {
    format!("grammar:\n{}\ndocument: {:?}\nsettings: {}", gtext, text, show_settings(set))
}

pub const BUDGET: u64 = 60_000;
/// For large documents.
pub const LARGE_BUDGET: u64 = 3_000_000;
/// One case of so many is large.
pub const LARGE: u64 = 300;

fn nontrivial(o: &Outcome) -> bool { o.steps >= 4 }

fn over_texts<F>(src: &mut Src, ctx: &mut Ctx, n: usize, mutations: u64, mut f: F) -> Verdict
where F: FnMut(&mut Src, &mut Ctx, &Case, &str, &Settings, &Outcome) -> Verdict {
    let mut big = None;
    let c = if src.chance(1, LARGE) {
        let l = large(src);
        ctx.label("large");
        ctx.label(l.kind);
        big = Some(l.text);
        large_case(l.g, l.alpha)?
    } else { gen_case(src)? };
    label_grammar(&c.g, ctx);
    for _ in 0..if big.is_some() { 1 } else { n } {
        let (set, text, budget) = match big.take() {
            Some(text) => (Settings::default(), text, LARGE_BUDGET),
            None => {
                let set = gen_settings(src);
                let text = gen_text(&c, src, &set, mutations);
                (set, text, BUDGET)
            }
        };
        ctx.show(describe(&c.gtext, &text, &set));
        let o = match reference(&c.nodes, &text, &set, budget) {
            Ok(o) => o,
            Err(Stop::Discard(_)) => { ctx.label("discarded: reference evaluation over budget"); continue; }
            Err(e) => return Err(e),
        };
        ctx.label(if o.data.is_some() { "accepted" } else { "rejected" });
        if o.stats.dropped_data > 0 { ctx.label("data of an abandoned path"); }
        if o.stats.backtracks > 0 { ctx.label("backtracking after progress"); }
        if !text.is_ascii() { ctx.label("non-ASCII document"); }
        f(src, ctx, &c, &text, &set, &o)?;
        let shown = ctx.shown.clone();
        ctx.eval(nontrivial(&o), key(&[&c.gtext, &text, &show_settings(&set)]), || shown);
    }
    Ok(())
}

fn agree(c: &Case, text: &str, set: &Settings, o: &Outcome) -> Result<Parsed, Stop> {
    let p = lib_parse(&c.syntax, text, set, limit_for(o))?;
    ensure!(p.0.is_ok() == o.data.is_some(), "document is {} by the library but {} by the rule meanings\nlibrary: {:?}\nreference: {}",
        if p.0.is_ok() { "accepted" } else { "rejected" },
        if o.data.is_some() { "accepted" } else { "rejected" }, p.0,
        match &o.data { Some(d) => show_items(d), None => format!("{:?}", o.errors) });
    Ok(p)
}

pub fn c01(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    over_texts(src, ctx, 8, 5, |src, ctx, c, text, set, o| {
        agree(c, text, set, o)?;
        // A document with unread text left over is rejected.
        if o.data.is_some() && src.chance(1, 3) {
            let tail = src.pick(&c.alpha).clone();
            let longer = format!("{}{}", text, tail);
            if let Ok(o2) = crate::model::run(&c.nodes, &longer, set, if text.len() > 2000 { LARGE_BUDGET } else { BUDGET }) {
                ctx.label("accepted document with more text behind it");
                agree(c, &longer, set, &o2)?;
            }
        }
        Ok(())
    })
}

pub fn c02(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    over_texts(src, ctx, 8, 2, |src, ctx, c, text, set, o| {
        // Data already there, longer than what an abandoned path adds.
        let many = if src.chance(1, LARGE * 4) { src.magnitude(70_000) } else { 0 };
        let prior: Vec<Item> = (0..src.weighted(&[2, 2, 1, 1]) + many).map(|i| match i % 5 {
            0 => Range::new(3, 2).wrap(MetaData::Bool(Arc::new("p".into()), true)),
            1 => Range::new(0, 1).wrap(MetaData::StartNode(Arc::new("q".into()))),
            _ => Range::new(7, 70).wrap(MetaData::String(Arc::new("p".into()), Arc::new("z".into()))),
        }).collect();
        let mut tokens = prior.clone();
        let r = sut("parse()", limit_for(o), || parse_with_indent(&c.syntax, text, &mut tokens, &lib_settings(set)))?;
        if !prior.is_empty() { ctx.label("data already in the buffer"); }
        ensure!(tokens.len() >= prior.len() && same(&tokens[..prior.len()], &prior),
            "data already in the buffer was changed: {}", show_items(&tokens));
        if let (Ok(()), Some(d)) = (&r, &o.data) {
            let got = &tokens[prior.len()..];
            ensure!(crate::model::same_values(got, d), "meta data differs\nlibrary:\n  {}\nreference:\n  {}", show_items(got), show_items(d));
            ensure!(balanced(got), "nodes are not well nested: {}", show_items(got));
            if d.len() >= 3 { ctx.label("three or more items of data"); }
        } else {
            ensure!(r.is_ok() == o.data.is_some(), "acceptance differs: {:?}", r);
        }
        Ok(())
    })
}

/// Ranges of items are inside the text on character boundaries and nest.
pub fn ranges_valid(d: &[Item], text: &str) -> Result<(), String> {
    let mut open: Vec<(usize, &Item)> = vec![];
    let mut at = 0;
    for x in d {
        let (s, e) = (x.offset, x.next_offset());
        if e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            return Err(format!("range {}..{} of {:?} is not on characters of the text", s, e, x.data));
        }
        match &x.data {
            MetaData::StartNode(_) => {
                if s != e { return Err(format!("start of node has range {}..{}", s, e)); }
                if s < at { return Err(format!("node starts at {} before {}", s, at)); }
                open.push((s, x));
                at = s;
            }
            MetaData::EndNode(_) => {
                let (start, _) = open.pop().ok_or("end without start")?;
                if s != start { return Err(format!("node starting at {} ends with range {}..{}", start, s, e)); }
                if e < at { return Err(format!("node ends at {} before its content ends at {}", e, at)); }
                at = e;
            }
            _ => {
                if s < at { return Err(format!("item {:?} starts at {} before {}", x.data, s, at)); }
                at = e;
            }
        }
    }
    Ok(())
}

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    over_texts(src, ctx, 8, 1, |src, ctx, c, text, set, o| {
        let d = match &o.data { Some(d) => d, None => return Ok(()) };
        let p = lib_parse(&c.syntax, text, set, limit_for(o))?;
        ensure!(p.0.is_ok(), "rejected: {:?}", p.0);
        if let Err(m) = ranges_valid(&p.1, text) { return fail(format!("{}\n  {}", m, show_items(&p.1))); }
        ensure!(same(&p.1, d), "ranges differ\nlibrary:\n  {}\nreference:\n  {}", show_items(&p.1), show_items(d));
        for x in &p.1 {
            // What is covered is what was read.
            if let MetaData::String(_, ref v) = x.data {
                let raw = &text[x.offset..x.next_offset()];
                ensure!(raw == &***v || raw.starts_with('"'), "string {:?} covers {:?}", v, raw);
            }
        }
        if d.is_empty() { return Ok(()); }
        ctx.label("accepted with data");
        // A literal prefix shifts every range by its length.
        if src.chance(1, 2) {
            let prefix = src.pick(&["z", "é", "日本z", "zz\u{1F600}", "\u{3000}z"]).to_string();
            let last = c.g.nodes.len() - 1;
            let mut g2 = c.g.clone();
            g2.nodes.push(NodeDef { id: 900, name: "prefixed".into(),
                rule: R::Seq(vec![tag(&prefix), refer(&c.g.nodes[last].name)]) });
            let s2 = if c.built { g2.build() } else { compile(&Printer::plain().grammar(&g2, &[]))? };
            let t2 = format!("{}{}", prefix, text);
            let p2 = lib_parse(&s2, &t2, set, limit_for(o) * 2)?;
            ensure!(p2.0.is_ok(), "rejected behind prefix {:?}: {:?}", prefix, p2.0);
            let shifted: Vec<Item> = p.1.iter().map(|x| Range::new(x.offset + prefix.len(), x.length).wrap(x.data.clone())).collect();
            ensure!(same(&p2.1, &shifted), "behind prefix {:?} the data is\n  {}\nwithout it\n  {}", prefix, show_items(&p2.1), show_items(&p.1));
            ctx.label("prefix shift");
        }
        // Reading from the middle of a text, behind data that is kept and data that is given up.
        if src.chance(1, 3) {
            use piston_meta::meta_rules::*;
            let off = *src.pick(&[0, 1, 7, 300, 1 << 33]);
            let keep = src.below(3);
            let stale = src.below(3);
            let item = |i: usize| Range::new(i, 1).wrap(MetaData::String(Arc::new("before".into()), Arc::new(i.to_string())));
            let mut tokens: Vec<Item> = (0..keep + stale).map(item).collect();
            let mut ind = lib_settings(set);
            let rules = &c.syntax.rules;
            let r = sut("Rule::parse()", limit_for(o), || rules[rules.len() - 1].parse(&mut tokens, &tokenizer::TokenizerState(keep), &read_token::ReadToken::new(text, off), rules, &mut ind))?;
            let (range, state) = match r { Ok((r, s, _)) => (r, s), Err(e) => return fail(format!("Rule::parse() at offset {}: {:?}", off, e)) };
            ensure!(range == Range::new(off, text.len()), "Rule::parse() at offset {} reads {:?}", off, range);
            let want: Vec<Item> = (0..keep).map(item).chain(p.1.iter().map(|x| Range::new(x.offset + off, x.length).wrap(x.data.clone()))).collect();
            ensure!(state.0 == want.len() && tokens.len() >= state.0 && same(&tokens[..state.0], &want), "Rule::parse() at offset {} behind {} items: state {:?}\n  {}\nparse()\n  {}", off, keep, state, show_items(&tokens), show_items(&p.1));
            ensure!(ind.indent == set.indent && ind.align_first == set.align_first && ind.tab_spaces == set.tab_spaces, "Rule::parse() leaves other settings: indent {}, align_first {}, tab_spaces {}", ind.indent, ind.align_first, ind.tab_spaces);
            ctx.label("read from the middle");
        }
        Ok(())
    })
}

pub fn c04(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    over_texts(src, ctx, 8, 9, |_, ctx, c, text, set, o| {
        if o.data.is_some() { return Ok(()); }
        let p = lib_parse(&c.syntax, text, set, limit_for(o))?;
        let e = match p.0 { Err(e) => e, Ok(()) => return fail("accepted a document no rule meaning accepts".into()) };
        check_error(&e, o, true)?;
        if o.deepest > 0 { ctx.label("error past the start"); }
        if o.errors.len() > 1 { ctx.label("several errors equally deep"); }
        // The rules as spelled, before optimization.
        let p = lib_parse(&c.g.to_syntax(), text, set, limit_for(o))?;
        match p.0 {
            Err(e) => check_error(&e, o, false),
            Ok(()) => fail("not optimized: accepted a document no rule meaning accepts".into()),
        }
    })
}

pub fn check_error(e: &Range<ParseError>, o: &Outcome, optimized: bool) -> Verdict {
    ensure!(end_of(e) == o.deepest, "reported error {:?} ends at {}, but the deepest failure ends at {}: {:?}", e, end_of(e), o.deepest, o.errors);
    ensure!(o.errors.contains(e) || (optimized && o.select_errors.contains(e)),
        "reported error {:?} was not raised by a rule; raised at that depth: {:?}", e, o.errors);
    Ok(())
}

// ------------------------------------------------------------------ C05

pub fn wide_select(src: &mut Src) -> R {
    if src.bool() {
        // First bytes all different, as far as there are that many.
        let mut cs: Vec<char> = (0..128u8).map(|b| b as char).collect();
        cs.extend((0xC2..0xE0u32).map(|b| char::from_u32((b & 0x1F) << 6 | src.below(64) as u32).unwrap()));
        cs.extend((0..16u32).map(|b| char::from_u32((b << 12 | 0x800).min(if b == 13 { 0xD700 } else { 0xFFFF })).unwrap()));
        cs.extend([0x10000, 0x40000, 0x80000, 0xC0000, 0x100000].iter().map(|&c| char::from_u32(c).unwrap()));
        let mut c = Cheap::new(src);
        for i in (1..cs.len()).rev() { cs.swap(i, c.below(i + 1)); }
        cs.truncate(src.int(2, cs.len()));
        if src.chance(1, 3) { let at = src.below(cs.len()); let c = cs[src.below(cs.len())]; cs.insert(at, c); }
        let mut k = Cheap::new(src);
        return R::Sel(cs.iter().enumerate().map(|(i, c)| {
            let t = format!("{}{}", c, ["", "x", "\u{301}"][(i / 7) % 3]);
            let head = R::Tag { text: t, not: false, inv: i % 5 == 0, prop: Some(format!("v{}", i)) };
            match (i + k.below(2)) % 4 {
                // More to read behind, so that an alternative can fail there.
                0 => R::Seq(vec![head, tagp("x", "x")]),
                1 => R::Seq(vec![head, R::Opt(Box::new(R::Seq(vec![tagp("a", "a"), tag("a")])))]),
                2 => R::Rep { rule: Box::new(R::Seq(vec![head])), opt: false },
                _ => head,
            }
        }).collect());
    }
    // Many alternatives, with repeated first bytes now and then.
    let n = if src.bool() { src.int(250, 520) } else { src.int(2, 260) };
    let letters: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect();
    let off = src.below(400);
    R::Sel((0..n).map(|i| {
        let k = i + off;
        let mut s: String = if src.chance(1, 3) { char::from_u32(0x4E00 + (k as u32 * 37) % 0x5000).unwrap().to_string() }
            else if k < 62 { letters[k].to_string() }
            else { char::from_u32(0x80 + k as u32 * 3).unwrap().to_string() };
        if src.chance(1, 4) { s.push('x'); }
        R::Tag { text: s, not: false, inv: false, prop: Some(format!("v{}", i)) }
    }).collect())
}

pub fn c05(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let wide = src.chance(1, 40);
    let mut big = None;
    let (g, alpha) = if src.chance(1, LARGE) {
        let l = large(src);
        ctx.label("large");
        ctx.label(l.kind);
        big = Some(l.text);
        (l.g, l.alpha)
    } else if wide {
        let sel = wide_select(src);
        let mut alpha: Vec<String> = vec!["a".into(), "x".into()];
        if let R::Sel(ref v) = sel {
            fn head(r: &R) -> &R { match r { R::Seq(v) => head(&v[0]), R::Rep { rule, .. } => head(rule), r => r } }
            for _ in 0..6 { if let R::Tag { ref text, .. } = head(src.pick(v)) { alpha.push(text.clone()); } }
            if let R::Tag { ref text, .. } = head(&v[v.len() - 1]) { alpha.push(text.clone()); }
        }
        ctx.label("many alternatives");
        let rule = if src.bool() { sel } else { R::Rep { rule: Box::new(sel), opt: true } };
        (Grammar { nodes: vec![NodeDef { id: 1, name: "n0".into(), rule }] }, alpha)
    } else {
        let mut cfg = Cfg::default();
        cfg.w[6] = 30;
        cfg.w[4] = 5;
        cfg.w[13] = 6;
        cfg.width = 6;
        cfg.max_nodes = 3;
        cfg.not_tag = true;
        let mut gen = Gen::new(src, cfg);
        let mut g = gen.grammar();
        let alpha = gen.alpha.clone();
        if src.chance(1, 12) { g.hollow(src); }
        (g, alpha)
    };
    let plain = g.to_syntax();
    let opt = sut("optimize()", BIG, || plain.clone().optimize())?;
    let twice = sut("optimize()", BIG, || opt.clone().optimize())?;
    let gtext = Printer::plain().grammar(&g, &[]);
    if opt != plain { ctx.label("optimizer changed the rules"); }
    label_grammar(&g, ctx);
    let nodes = g.number();
    for _ in 0..if big.is_some() { 1 } else { 8 } {
        let set = if src.chance(1, 8) { gen_settings(src) } else { Settings::default() };
        let (text, budget) = match big.take() { Some(t) => (t, LARGE_BUDGET), None => (text_for(&g, src, &alpha, set.indent as usize, 6), BUDGET) };
        ctx.show(describe(&gtext, &text, &set));
        let o = match crate::model::run(&nodes, &text, &set, budget) { Ok(o) => o, Err(_) => continue };
        let limit = limit_for(&o);
        let a = lib_parse(&plain, &text, &set, limit)?;
        for (what, s) in [("optimized", &opt), ("twice optimized", &twice)] {
            let b = lib_parse(s, &text, &set, limit)?;
            compare("not optimized", &a, what, &b)?;
        }
        if o.selects > 0 && !text.is_empty() { ctx.label(if a.0.is_ok() { "accepted" } else { "rejected" }); }
        let shown = ctx.shown.clone();
        ctx.eval(o.selects > 0 && opt != plain, key(&[&gtext, &text]), || shown);
    }
    Ok(())
}

/// Same acceptance and data, errors equally deep.
pub fn compare(an: &str, a: &Parsed, bn: &str, b: &Parsed) -> Verdict {
    match (&a.0, &b.0) {
        (Ok(()), Ok(())) => {
            ensure!(same(&a.1, &b.1), "{}:\n  {}\n{}:\n  {}", an, show_items(&a.1), bn, show_items(&b.1));
        }
        (Err(x), Err(y)) => {
            ensure!(end_of(x) == end_of(y), "{}: error {:?}\n{}: error {:?}", an, x, bn, y);
        }
        (x, y) => return fail(format!("{}: {:?}\n{}: {:?}", an, x, bn, y)),
    }
    Ok(())
}

/// Inputs on which the library and the meta language disagreed.
fn table(cases: &[(&str, &str, bool)]) -> Verdict {
    for (g, t, ok) in cases {
        let s = compile(g)?;
        let (r, _) = lib_parse_default(&s, t)?;
        ensure!(r.is_ok() == *ok, "{}\non {:?}: {:?}", g, t, r);
    }
    Ok(())
}

pub fn pinned_language() -> Verdict {
    table(&[
        ("1 a = \"éé\"", "éé", true),
        ("1 a = \"éé\"", "ééx", false),
        ("1 a = .l(.$)", "1\n\u{3000}\n2", true),
        ("1 a = .s?(\",\" .$)", "1,2,", false),
        ("1 a = [.$ \"+\" .$]", "1e5+3", true),
    ])
}

pub fn pinned_optimizer() -> Verdict {
    table(&[
        ("1 a = [\"x\" {\"a\" \"b\" ?\"c\"}]", "x", true),
        ("1 a = [\"x\" {\"a\" \"b\" .w?}]", "x", true),
        ("_e: \"\"\n1 a = [\"x\" {\"a\" \"b\" _e}]", "x", true),
        ("1 a = [\"x\" {\"a\" \"b\"}]", "x", false),
    ])
}
