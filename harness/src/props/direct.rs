//! C28, C29: single rules read directly, and the table of first bytes.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gram::*;
use crate::model::{run_at, same, Item};
use crate::print::Printer;
use crate::props::parsing::*;
use crate::textgen::*;
use piston_meta::meta_rules::*;
use piston_meta::optimize::*;
use piston_meta::tokenizer::{read_data, TokenizerState};
use piston_meta::*;
use read_token::ReadToken;
use std::sync::Arc;

fn nth<'a>(g: &'a Grammar, mut n: usize) -> R {
    let mut g = g.clone();
    for d in &mut g.nodes {
        let s = d.rule.size();
        if n < s { return d.rule.nth_mut(&mut n).unwrap().clone(); }
        n -= s;
    }
    unreachable!()
}

/// A text for one rule of the grammar.
fn text_of(g: &Grammar, r: &R, src: &mut Src, alpha: &[String], indent: usize, mutations: u64) -> String {
    let mut g = g.clone();
    g.nodes.push(NodeDef { id: 999, name: "chosen rule".into(), rule: r.clone() });
    text_for(&g, src, alpha, indent, mutations)
}

fn shift(d: &[Item], by: usize) -> Vec<Item> {
    d.iter().map(|x| Range::new(x.offset + by, x.length).wrap(x.data.clone())).collect()
}

fn some_item(src: &mut Src) -> Item {
    let n = src.below(40);
    let name = Arc::new(src.pick(&["p", "q", "before"]).to_string());
    Range::new(n, src.below(3)).wrap(match src.below(5) {
        0 => MetaData::StartNode(name),
        1 => MetaData::EndNode(name),
        2 => MetaData::Bool(name, n % 2 == 0),
        3 => MetaData::F64(name, n as f64),
        _ => MetaData::String(name, Arc::new(n.to_string())),
    })
}

// ------------------------------------------------------------------ C28

pub fn c28(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut cfg = grammar_cfg(src);
    cfg.not_tag = true;
    let mut gen = Gen::new(src, cfg);
    let mut g = gen.grammar();
    let alpha = gen.alpha.clone();
    if src.chance(1, 12) { g.hollow(src); }
    let nodes = g.number();
    let raw: Vec<Rule> = nodes.iter().map(to_rule).collect();
    let optimized = src.chance(1, 3);
    // The rules references lead to.
    let refs: Vec<Rule> = if optimized && src.bool() {
        sut("optimize()", BIG, || g.to_syntax().optimize())?.rules
    } else { raw.clone() };
    let refs_optimized = refs != raw;
    let mut all = vec![];
    for m in &nodes { m.all(&mut all); }
    // The rules to read, and a text for them one behind the other.
    let set = gen_settings(src);
    let n = src.int(2, 6);
    let mut plan = vec![];
    let mut text = String::new();
    for _ in 0..n {
        let i = if src.chance(1, 3) { let k = src.below(nodes.len()); g.nodes[..k].iter().map(|n| n.rule.size()).sum() } else { src.below(all.len()) };
        plan.push((i, text.len()));
        text.push_str(&text_of(&g, &nth(&g, i), src, &alpha, set.indent as usize, 2));
        if text.len() > 400 { break; }
    }
    if src.chance(1, 4) { let w = src.pick(&alpha).clone(); text.push_str(&w); }
    let off = *src.pick(&[0, 0, 1, 7, 300, 65_536, 1 << 33]);
    let gtext = Printer::plain().grammar(&g, &[]);
    let mut shown = describe(&gtext, &text, &set);
    if off > 0 { shown.push_str(&format!("\nthe text begins at offset {}", off)); }

    // What is kept, and the states one may go back to: (items, place).
    let mut kept: Vec<Item> = (0..src.below(3)).map(|_| some_item(src)).collect();
    if src.chance(1, 400) {
        // A lot of it.
        let n = src.magnitude(5_000);
        let item = some_item(src);
        kept.extend((0..n).map(|_| item.clone()));
        ctx.label("behind a lot of data");
    }
    let mut tokens = kept.clone();
    for _ in 0..src.weighted(&[2, 1, 1, 1]) { tokens.push(some_item(src)); }
    let mut pos = 0;
    let mut points: Vec<(usize, usize)> = vec![(kept.len(), 0)];
    let mut ind = lib_settings(&set);
    let (mut with_data, mut given_up) = (0, 0);
    for (i, at) in plan {
        // Go on where the last rule ended, or where the text for this one begins.
        if src.chance(1, 3) { pos = at; }
        if src.chance(1, 6) {
            let (k, p) = *src.pick(&points);
            if k < kept.len() { ctx.label("back to an earlier state"); }
            kept.truncate(k);
            points.retain(|x| x.0 <= k);
            pos = p;
            shown.push_str(&format!("\nback to {} items at {}", k, p));
        }
        if src.chance(1, 5) {
            let item = some_item(src);
            let s = sut("read_data()", 1000, || read_data(&mut tokens, item.clone(), &TokenizerState(kept.len())))?;
            kept.push(item);
            shown.push_str(&format!("\nread_data {:?}", kept[kept.len() - 1]));
            ctx.show(shown.clone());
            ensure!(s.0 == kept.len(), "read_data() gives state {:?} after {} items", s, kept.len());
            ensure!(same(&tokens, &kept), "read_data() leaves\n  {}\nexpected\n  {}", show_items(&tokens), show_items(&kept));
            ctx.label("data read directly");
        }
        let m = all[i];
        let this = optimized && (refs_optimized || src.bool());
        let rule = if this { sut("optimize_rule()", BIG, || optimize_rule(&to_rule(m), &raw))? } else { to_rule(m) };
        let (res, o) = match run_at(&nodes, m, &text, pos, &set, BUDGET) {
            Ok(x) => x,
            Err(_) => { ctx.label("discarded: reference evaluation over budget"); break; }
        };
        let fast = this || refs_optimized;
        shown.push_str(&format!("\nat {} behind {} items and {} to be dropped: {}rule {:?}", pos, kept.len(), tokens.len().saturating_sub(kept.len()), if fast { "optimized " } else { "" }, m.k));
        ctx.show(shown.clone());
        let state = TokenizerState(kept.len());
        let got = sut("Rule::parse()", limit_for(&o), || rule.parse(&mut tokens, &state, &ReadToken::new(&text[pos..], off + pos), &refs, &mut ind))?;
        ensure!(ind.indent == set.indent && ind.align_first == set.align_first && ind.tab_spaces == set.tab_spaces,
            "the settings are left as indent {}, align_first {}, tab_spaces {}", ind.indent, ind.align_first, ind.tab_spaces);
        ensure!(tokens.len() >= kept.len() && same(&tokens[..kept.len()], &kept), "items that were kept have changed:\n  {}\nkept\n  {}", show_items(&tokens), show_items(&kept));
        let local = |e: Range<ParseError>| -> Result<Range<ParseError>, Stop> {
            if e.offset < off { return fail(format!("error {:?} lies before the text at {}", e, off)); }
            Ok(Range::new(e.offset - off, e.length).wrap(e.data))
        };
        match (got, res) {
            (Ok((range, s, err)), Some((end, data))) => {
                ensure!(range == Range::new(off + pos, end - pos), "reads {:?}, but the rule reads {}..{}", range, off + pos, off + end);
                let want: Vec<Item> = kept.iter().cloned().chain(shift(&data, off)).collect();
                ensure!(s.0 == want.len() && s.0 <= tokens.len() && same(&tokens[..s.0], &want),
                    "state {:?} with\n  {}\nexpected {} items\n  {}", s, show_items(&tokens), want.len(), show_items(&want));
                match err {
                    // An optimized choice that succeeds does not try what its table rules out.
                    None => ensure!(o.errors.is_empty() || fast, "reports no error, but {:?} were raised on the way", o.errors),
                    Some(e) => { let e = local(e)?; if !fast || end_of(&e) >= o.deepest { check_error(&e, &o, fast)?; } ctx.label("error on the way to a success"); }
                }
                if !data.is_empty() { with_data += 1; ctx.label("succeeds with data"); } else { ctx.label("succeeds without data"); }
                if src.chance(3, 4) {
                    // Take what was read.
                    kept = want;
                    pos = end;
                    points.push((kept.len(), pos));
                } else {
                    shown.push_str(" (given up)");
                    given_up += 1;
                    ctx.label("given up after success");
                }
            }
            (Err(e), None) => {
                let e = local(e)?;
                check_error(&e, &o, fast)?;
                ctx.label("fails");
            }
            (Ok(x), None) => return fail(format!("succeeds with {:?}, but the rule fails: {:?}", x, o.errors)),
            (Err(e), Some((end, _))) => return fail(format!("fails with {:?}, but the rule reads up to {}", e, end)),
        }
    }
    ctx.eval(with_data + given_up >= 2, hash_str(&shown), || shown.clone());
    Ok(())
}

// ------------------------------------------------------------------ C29

pub fn c29(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut cfg = grammar_cfg(src);
    cfg.not_tag = true;
    if src.bool() { cfg.w[6] = 26; cfg.width = 5; }
    let mut gen = Gen::new(src, cfg);
    let mut g = gen.grammar();
    let mut alpha = gen.alpha.clone();
    if src.chance(1, 12) { g.hollow(src); }
    if src.chance(1, 30) {
        let sel = wide_select(src);
        if let R::Sel(ref v) = sel {
            fn head(r: &R) -> &R { match r { R::Seq(v) => head(&v[0]), R::Rep { rule, .. } => head(rule), r => r } }
            for _ in 0..6 { if let R::Tag { ref text, .. } = head(src.pick(v)) { alpha.push(text.clone()); } }
        }
        g.nodes.push(NodeDef { id: 70, name: "wide".into(), rule: sel });
        ctx.label("many alternatives");
    }
    let nodes = g.number();
    let refs: Vec<Rule> = nodes.iter().map(to_rule).collect();
    let mut all = vec![];
    for m in &nodes { m.all(&mut all); }
    let sels: Vec<usize> = (0..all.len()).filter(|&i| matches!(all[i].k, K::Sel(ref v) if v.len() > 1)).collect();
    let i = if !sels.is_empty() && src.chance(3, 4) { *src.pick(&sels) } else { src.below(all.len()) };
    let (m, r) = (all[i], nth(&g, i));
    let gtext = Printer::plain().grammar(&g, &[]);
    let head = format!("grammar:\n{}\nrule {:?}", gtext, m.k);
    ctx.show(head.clone());
    let rule = to_rule(m);
    let byte = sut("unique_byte()", BIG, || unique_byte(&rule, &refs))?;
    let table = match rule {
        Rule::Select(ref sel) => Some(sut("unique_table_from_select()", BIG, || unique_table_from_select(sel, &refs))?),
        _ => None,
    };
    let alts: Vec<&M> = m.children();
    if let Some((ref t, limit)) = table {
        ensure!(limit <= alts.len(), "the table is said to hold for {} of {} alternatives", limit, alts.len());
        for b in 0..256 {
            ensure!(t[b] == 255 || (t[b] as usize) < limit, "byte {:#x} leads to alternative {}, but the table holds for {} only", b, t[b], limit);
        }
        if limit > 0 { ctx.label("table with entries"); }
        if limit < alts.len() { ctx.label("table for some alternatives"); }
    }
    if byte.is_some() { ctx.label("rule with a first byte"); }
    // Of the alternatives, each has a first byte of its own.
    let bytes: Vec<Option<u8>> = match table {
        Some(_) => { let mut v = vec![]; for a in alts.iter() { let a = to_rule(a); v.push(sut("unique_byte()", BIG, || unique_byte(&a, &refs))?); } v }
        None => vec![],
    };
    let some = byte.is_some() || bytes.iter().any(|b| b.is_some());
    let set = if src.chance(1, 8) { gen_settings(src) } else { Default::default() };
    // A table a program made: it leads where it leads, and what it rules out is not read.
    let made = if !alts.is_empty() && alts.len() < 40 && src.chance(1, 3) {
        let tail = src.bool();
        let n = alts.len() - tail as usize;
        let mut t = [255u8; 256];
        for b in 0..256 { if n > 0 && src.chance(1, 20) { t[b] = src.below(n) as u8; } }
        for s in &alpha { if n > 0 { t[s.as_bytes()[0] as usize] = if src.chance(1, 6) { 255 } else { src.below(n) as u8 }; } }
        let rule = Rule::FastSelect(Box::new(FastSelect { table: t, args: alts.iter().map(|m| to_rule(m)).collect(), tail, debug_id: 77 }));
        Some((t, tail, rule))
    } else { None };
    for k in 0..12 {
        // A text for the rule, or for one of its alternatives, from some place on.
        let of = match r { R::Sel(ref v) if k % 2 == 1 && !v.is_empty() => src.pick(v).clone(), ref r => r.clone() };
        let text = if k == 0 { String::new() } else { text_of(&g, &of, src, &alpha, set.indent as usize, 4) };
        let mut pos = 0;
        if src.chance(1, 4) { pos = src.below(text.len() + 1); while !text.is_char_boundary(pos) { pos -= 1; } }
        let first = text.as_bytes().get(pos).cloned();
        ctx.show(format!("{}\ntext {:?} from {}, {}", head, text, pos, show_settings(&set)));
        let matches = |m: &M| -> Result<Option<bool>, Stop> {
            let (res, o) = match run_at(&nodes, m, &text, pos, &set, BUDGET) { Ok(x) => x, Err(_) => return Ok(None) };
            let rule = to_rule(m);
            let got = sut("Rule::parse()", limit_for(&o), || rule.parse(&mut vec![], &TokenizerState::new(), &ReadToken::new(&text[pos..], pos), &refs, &mut lib_settings(&set)))?;
            ensure!(got.is_ok() == res.is_some(), "the rule {:?} gives {:?}, expected {:?}", m.k, got, res);
            Ok(Some(res.is_some()))
        };
        if let Some(b) = byte {
            if matches(m)? == Some(true) {
                ctx.label("the rule matches");
                ensure!(first == Some(b), "the first byte is said to be {:#x}, but the rule matches where the byte is {:x?}", b, first);
            }
        }
        if let Some((ref t, limit)) = table {
            let to = first.map(|b| t[b as usize]).filter(|&i| i != 255).map(|i| i as usize);
            for (i, a) in alts.iter().enumerate() {
                if i >= limit && bytes[i].is_none() { continue; }
                // Each is read, but in very wide choices only some.
                if alts.len() > 40 && Some(i) != to && !src.chance(1, 20) { continue; }
                if matches(a)? != Some(true) { continue; }
                if let Some(b) = bytes[i] { ensure!(first == Some(b), "the first byte of alternative {} is said to be {:#x}, but it matches where the byte is {:x?}", i, b, first); }
                if i < limit {
                    ctx.label("an alternative matches");
                    ensure!(to == Some(i), "alternative {} matches where the byte is {:x?}, but the table leads to {:?}", i, first, to);
                }
            }
        }
        if let Some((ref t, tail, ref rule)) = made {
            let to = first.map(|b| t[b as usize]).filter(|&i| i != 255).map(|i| i as usize);
            let mut res = None;
            let mut steps = 0;
            let mut over = false;
            let order: Vec<usize> = to.into_iter().chain(if tail { Some(alts.len() - 1) } else { None }).collect();
            for &i in &order {
                match run_at(&nodes, alts[i], &text, pos, &set, BUDGET) {
                    Ok((r, o)) => { steps += o.steps; res = r; if res.is_some() { break; } }
                    Err(_) => { over = true; break; }
                }
            }
            if !over {
                let mut tokens = vec![];
                ctx.show(format!("{}\nmade table: tail {}, alternatives to read {:?}", ctx.shown, tail, order));
                let got = sut("FastSelect::parse()", steps * 50 + 100_000, || rule.parse(&mut tokens, &TokenizerState::new(), &ReadToken::new(&text[pos..], pos), &refs, &mut lib_settings(&set)))?;
                match (&got, &res) {
                    (Ok((r, s, _)), Some((end, d))) => {
                        ensure!(*r == Range::new(pos, end - pos), "reads {:?}, but the alternative reads {}..{}", r, pos, end);
                        ensure!(s.0 == d.len() && s.0 <= tokens.len() && same(&tokens[..s.0], d), "state {:?} with\n  {}\nexpected\n  {}", s, show_items(&tokens), show_items(d));
                        ctx.label("made table: success");
                    }
                    (Err(e), None) => {
                        if order.is_empty() { ensure!(e.offset == pos && e.length == 0, "no alternative to read, but the error is {:?}", e); }
                        ctx.label("made table: failure");
                    }
                    _ => return fail(format!("with a made table: {:?}, expected {:?}", got, res)),
                }
            }
        }
        let shown = ctx.shown.clone();
        ctx.eval(some, hash_str(&shown), || shown);
    }
    Ok(())
}
