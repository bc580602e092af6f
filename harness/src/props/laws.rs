//! C20, C22, C24.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gram::*;
use crate::large::large;
use crate::props::parsing::{LARGE, LARGE_BUDGET};
use crate::model::{same, Settings};
use crate::print::Printer;
use crate::textgen::*;
use piston_meta::*;
use std::sync::Arc;

// ------------------------------------------------------------------ C20

/// Rewrites a rule in a way that may not matter. `attempt`: something to try in vain.
fn rewrite(r: &R, g: &Grammar, attempt: R, attempt_consumes: bool, src: &mut Src) -> Option<(R, &'static str)> {
    let vain = |a: R| R::Seq(vec![a, never()]);
    // Half of the time a law about the kind of rule at hand, if there is one.
    let own: &[usize] = match r {
        R::Opt(_) => &[7], R::Rep { opt: false, .. } => &[8], R::Rep { .. } => &[9], R::Ref { prop: None, .. } => &[10],
        R::Seq(_) => &[11, 14], R::Sel(_) => &[12, 13, 14], _ => &[],
    };
    let law = if !own.is_empty() && src.bool() { *src.pick(own) } else { src.below(18) };
    Some(match law {
        0 => (R::Sel(vec![vain(attempt), r.clone()]), "alternative that fails"),
        1 => (R::Seq(vec![R::Opt(Box::new(vain(attempt))), r.clone()]), "optional that fails"),
        2 => (R::Seq(vec![R::Not(Box::new(vain(attempt))), r.clone()]), "lookahead that fails"),
        3 => (R::Seq(vec![R::Rep { rule: Box::new(vain(attempt)), opt: true }, r.clone()]), "repetition that fails"),
        4 => (R::Seq(vec![R::Sep { by: Box::new(tag(",")), rule: Box::new(vain(attempt)), opt: true, trail: src.bool() }, r.clone()]), "list that fails"),
        5 => (R::Seq(vec![R::Opt(Box::new(vain(r.clone()))), r.clone()]), "the rule itself in vain"),
        6 => (R::Seq(vec![R::Not(Box::new(R::Not(Box::new(R::Seq(vec![r.clone()]))))), r.clone()]), "double negation"),
        7 => match r { R::Opt(x) => (R::Sel(vec![(**x).clone(), nothing()]), "optional as choice"), _ => return None },
        8 => match r { R::Rep { rule, opt: false } => (R::Seq(vec![(**rule).clone(), R::Rep { rule: rule.clone(), opt: true }]), "one or more as one and zero or more"), _ => return None },
        9 => match r { R::Rep { rule, opt: true } => (R::Opt(Box::new(R::Rep { rule: rule.clone(), opt: false })), "zero or more as optional one or more"), _ => return None },
        10 => match r { R::Ref { name, prop: None } => ({
            // `!` in front of a text means that the text is not there, which is another rule.
            let rule = g.nodes[g.resolve(name)?].rule.clone();
            if matches!(rule, R::Tag { .. }) { R::Seq(vec![rule]) } else { rule }
        }, "reference inlined"), _ => return None },
        11 => match r { R::Seq(v) if v.len() >= 2 => {
            let i = src.int(1, v.len() - 1);
            (if src.bool() { R::Seq(vec![R::Seq(v[..i].to_vec()), R::Seq(v[i..].to_vec())]) }
             else { let mut w = v[..i].to_vec(); w.push(R::Seq(v[i..].to_vec())); R::Seq(w) }, "sequence regrouped")
        } _ => (R::Seq(vec![r.clone()]), "sequence of one") },
        12 => match r { R::Sel(v) if v.len() >= 2 => {
            let i = src.int(1, v.len() - 1);
            (if src.bool() { R::Sel(vec![R::Sel(v[..i].to_vec()), R::Sel(v[i..].to_vec())]) }
             else { let mut w = v[..i].to_vec(); w.push(R::Sel(v[i..].to_vec())); R::Sel(w) }, "choice regrouped")
        } _ => (R::Sel(vec![r.clone()]), "choice of one") },
        13 => match r { R::Sel(v) => {
            let mut w = v.clone();
            let i = src.below(v.len());
            let at = src.int(i + 1, v.len());
            w.insert(at, v[i].clone());
            (R::Sel(w), "alternative repeated")
        } _ => (R::Sel(vec![r.clone(), r.clone()]), "choice between the same") },
        14 => match r {
            // Flattening.
            R::Seq(v) => (R::Seq(v.iter().flat_map(|x| if let R::Seq(w) = x { w.clone() } else { vec![x.clone()] }).collect()), "inner sequence flattened"),
            R::Sel(v) => (R::Sel(v.iter().flat_map(|x| if let R::Sel(w) = x { w.clone() } else { vec![x.clone()] }).collect()), "inner choice flattened"),
            _ => return None,
        },
        15 => (R::Seq(vec![nothing(), r.clone(), nothing()]), "nothing around"),
        16 => (R::Sel(vec![never(), r.clone(), never()]), "impossible alternatives"),
        _ => {
            if !attempt_consumes { return None; }
            (R::Seq(vec![R::Not(Box::new(R::Seq(vec![attempt, never()]))), R::Opt(Box::new(never())), r.clone()]), "lookahead that fails")
        }
    })
}

/// An attempt that reads a lot before it is given up.
fn long_attempt(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let n = src.magnitude(6_000);
    let item = match src.below(3) {
        0 => tagp("x", "p"),
        1 => R::Seq(vec![tagp("x", "p"), R::Opt(Box::new(tagp("y", "q")))]),
        _ => R::Sel(vec![tagp("y", "q"), tagp("x", "p")]),
    };
    let attempt = R::Seq(vec![R::Rep { rule: Box::new(item), opt: src.bool() }, tagp("never", "r")]);
    let base = R::Rep { rule: Box::new(if src.bool() { tag("x") } else { tagp("x", "s") }), opt: true };
    let (new, what) = match src.below(4) {
        0 => (R::Sel(vec![attempt, base.clone()]), "another alternative"),
        1 => (R::Seq(vec![R::Opt(Box::new(attempt)), base.clone()]), "an optional"),
        2 => (R::Seq(vec![R::Not(Box::new(attempt)), base.clone()]), "a lookahead"),
        _ => (R::Seq(vec![R::Rep { rule: Box::new(attempt), opt: true }, base.clone()]), "a repetition"),
    };
    let last = tagp("end", "t");
    let g = |r: R| Grammar { nodes: vec![NodeDef { id: 1, name: "a".into(), rule: R::Seq(vec![tagp("begin", "b"), r, last.clone()]) }] };
    let (t1, t2) = (Printer::plain().grammar(&g(base), &[]), Printer::plain().grammar(&g(new), &[]));
    let text = format!("begin{}end", "x".repeat(n));
    ctx.show(format!("grammar:\n{}\nwith {}:\n{}\ndocument: {} times x between begin and end", t1, what, t2, n));
    let (s1, s2) = (compile(&t1)?, compile(&t2)?);
    let a = lib_parse(&s1, &text, &Settings::default(), 1_000_000)?;
    let b = lib_parse(&s2, &text, &Settings::default(), 1_000_000)?;
    ensure!(a.0.is_ok() && b.0.is_ok(), "original: {:?}\nrewritten: {:?}", a.0, b.0);
    ensure!(same(&a.1, &b.1), "original: {} items\nrewritten: {} items", a.1.len(), b.1.len());
    ctx.label("a long attempt");
    let shown = ctx.shown.clone();
    ctx.eval(n >= 4, key(&[&shown]), || shown.clone());
    Ok(())
}

pub fn c20(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 800) { return long_attempt(src, ctx); }
    let mut cfg = Cfg::default();
    match src.weighted(&[3, 2, 2]) { 1 => { cfg.w[10] = 14; cfg.w[11] = 12; } 2 => { cfg.w[9] = 10; cfg.w[12] = 12; cfg.w[6] = 16; } _ => {} }
    cfg.max_nodes = 3;
    let mut big = None;
    let (g, alpha) = if src.chance(1, LARGE) {
        let l = large(src);
        ctx.label("large");
        ctx.label(l.kind);
        big = Some(l.text);
        (l.g, l.alpha)
    } else {
        let mut gen = Gen::new(src, cfg.clone());
        (gen.grammar(), gen.alpha.clone())
    };
    // Something to try, which refers to no node.
    let mut acfg = cfg;
    acfg.w[11] = 0;
    acfg.depth = 3;
    let attempt = if src.bool() {
        // Often a rule of the grammar itself.
        let all: Vec<R> = g.nodes.iter().flat_map(|n| { fn walk(r: &R, o: &mut Vec<R>) { o.push(r.clone()); for c in r.children() { walk(c, o); } } let mut o = vec![]; walk(&n.rule, &mut o); o })
            .filter(|r| !r.any(|r| matches!(r, R::Ref { .. }))).collect();
        if all.is_empty() { tagp("a", "p") } else { src.pick(&all).clone() }
    } else {
        let mut gen = Gen::new(src, acfg);
        gen.alpha = alpha.clone();
        gen.rule(0, 3, false, false)
    };
    let mut h = g.clone();
    let mut laws = vec![];
    let count = src.int(1, 2);
    for _ in 0..6 {
        if laws.len() >= count { break; }
        let at = src.below(h.size());
        let base = h.clone();
        let r = h.nth_mut(at).unwrap();
        if let Some((new, law)) = rewrite(r, &base, attempt.clone(), false, src) {
            *r = new;
            laws.push(law);
        }
    }
    if laws.is_empty() { return Err(Stop::Discard("no law applies")); }
    let (t1, t2) = (Printer::plain().grammar(&g, &[]), Printer::plain().grammar(&h, &[]));
    let (s1, s2) = (compile(&t1)?, compile(&t2)?);
    for l in &laws { ctx.label(l); }
    for _ in 0..if big.is_some() { 1 } else { 8 } {
        let is_big = big.is_some();
        let set = if is_big { Settings::default() } else { gen_settings(src) };
        let text = match big.take() { Some(t) => t, None => text_for(&g, src, &alpha, set.indent as usize, 4) };
        ctx.show(format!("grammar:\n{}\nrewritten ({}):\n{}\ndocument: {:?}\nsettings: {}", t1, laws.join(", "), t2, text, show_settings(&set)));
        let a = sut_within("parse()", if is_big { 500_000 } else { 60_000 }, || { let mut d = vec![]; let r = parse_with_indent(&s1, &text, &mut d, &lib_settings(&set)); (r, d) })?;
        let a = match a { Some(a) => a, None => { ctx.label("discarded: over budget"); continue; } };
        let steps = piston_meta::verif::steps();
        let b = sut_within("parse() with the rewritten grammar", if is_big { steps * 20 + 10_000 } else { steps * 100 + 300_000 }, || { let mut d = vec![]; let r = parse_with_indent(&s2, &text, &mut d, &lib_settings(&set)); (r, d) })?;
        let b = match b { Some(b) => b, None => { ctx.label("discarded: over budget"); continue; } };
        ensure!(a.0.is_ok() == b.0.is_ok(), "original: {:?}\nrewritten: {:?}", a.0, b.0);
        if a.0.is_ok() {
            ensure!(same(&a.1, &b.1), "original:\n  {}\nrewritten:\n  {}", show_items(&a.1), show_items(&b.1));
            ctx.label(if a.1.is_empty() { "accepted" } else { "accepted with data" });
        } else { ctx.label("rejected"); }
        let shown = ctx.shown.clone();
        ctx.eval(steps >= 4, key(&[&t1, &t2, &text, &show_settings(&set)]), || shown);
    }
    Ok(())
}

// ------------------------------------------------------------------ C22

type Res = (Result<(), Range<ParseError>>, Vec<Range<MetaData>>);

thread_local! { static BEFORE: Arc<String> = Arc::new("before".into()); }

fn run_one(s: &Syntax, text: &str) -> Option<Res> {
    let r = sut_within("parse()", if text.len() > 600 { LARGE_BUDGET } else { 100_000 }, || { let mut d = vec![Range::new(1, 2).wrap(MetaData::Bool(BEFORE.with(|n| n.clone()), true))]; let r = parse(s, text, &mut d); if r.is_err() { d.clear(); } (r, d) });
    match r { Ok(x) => x, Err(_) => None }
}

fn equal_res(a: &Option<Res>, b: &Option<Res>) -> bool {
    match (a, b) { (Some(a), Some(b)) => a.0 == b.0 && same(&a.1, &b.1), (None, None) => true, _ => false }
}

/// Changes one detail.
/// Another string, with little changed.
fn other_string(s: &str, src: &mut Src) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let n = cs.len();
    let c = *src.pick(&['x', 'a', 'z', '0', 'é', ' ', '"', '_', '日']);
    match src.below(7) {
        0 => cs.push(c),
        1 | 2 if n > 0 => cs[src.below(n)] = c,
        3 if n > 0 => { cs.remove(src.below(n)); }
        4 if n > 1 => { let i = src.below(n - 1); cs.swap(i, i + 1); }
        5 if n > 0 => { let i = src.below(n); cs[i] = if cs[i].is_ascii_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() }; }
        _ => { let i = src.below(n + 1); cs.insert(i, c); }
    }
    cs.into_iter().collect()
}

fn other_prop(p: &Option<String>, src: &mut Src) -> Option<String> {
    match p {
        Some(p) => match src.below(3) { 0 => None, 1 => Some("new".into()), _ => Some(other_string(p, src)) },
        None => Some("new".into()),
    }
}

fn tweak(g: &mut Grammar, src: &mut Src) {
    let at = src.below(g.size());
    let r = g.nth_mut(at).unwrap();
    match r {
        R::Ws(o) => *o = !*o,
        R::Tag { text, not, inv, prop } => match src.below(4) { 0 => *text = other_string(text, src), 1 => *not = !*not, 2 => *inv = !*inv, _ => *prop = other_prop(prop, src) },
        R::Until { any, opt, prop, ws } => match src.below(4) { 0 => *any = other_string(any, src), 1 => *opt = !*opt, 2 => *ws = !*ws, _ => *prop = other_prop(prop, src) },
        R::Text { empty, prop } => if src.bool() { *empty = !*empty } else { *prop = other_prop(prop, src) },
        R::Num { us, prop } => if src.bool() { *us = !*us } else { *prop = other_prop(prop, src) },
        R::Sel(v) | R::Seq(v) => match src.below(4) { 3 if v.len() > 1 => { let i = src.below(v.len() - 1); v.swap(i, i + 1); } 0 => v.push(tag("new")), 1 if v.len() > 1 => { v.pop(); } _ => v.insert(0, tag("new")) },
        R::Sep { opt, trail, .. } => if src.bool() { *opt = !*opt } else { *trail = !*trail },
        R::Rep { opt, .. } => *opt = !*opt,
        R::Lines { indent, .. } => *indent = !*indent,
        R::Ref { prop, .. } => *prop = other_prop(prop, src),
        R::Opt(x) => *r = R::Not(x.clone()),
        R::Not(x) => *r = R::Opt(x.clone()),
    }
}

pub fn c22(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut cfg = Cfg::default();
    cfg.w[6] = 16;
    cfg.not_tag = false;
    let mut big = None;
    let (g, alpha) = if src.chance(1, LARGE) {
        let l = large(src);
        ctx.label("large");
        ctx.label(l.kind);
        big = Some(l.text);
        (l.g, l.alpha)
    } else {
        let mut gen = Gen::new(src, cfg);
        (gen.grammar(), gen.alpha.clone())
    };
    let text = Printer::plain().grammar(&g, &[]);
    ctx.show(format!("grammar:\n{}", text));
    let a = compile(&text)?;
    let b = compile(&text)?;
    ensure!(a == b && b == a, "compiling twice gives different syntaxes");
    ensure!(a == a.clone(), "a syntax differs from its copy");
    ensure!(a == a, "a syntax differs from itself");
    let raw = convert_text(&text)?;
    ensure!(raw.clone().optimize() == a, "optimizing the same rules gives another syntax");
    // Much the same text, right behind.
    if src.chance(1, 3) {
        let mut cs: Vec<char> = text.chars().collect();
        let n = cs.len();
        for _ in 0..src.int(1, 2) {
            let i = src.below(n - 1);
            match src.below(4) {
                0 => cs.swap(i, i + 1),
                1 => cs[i] = *src.pick(&['x', ' ', '"', '1', '!', '?', 'a']),
                2 => { let c = cs.remove(i); cs.insert(src.below(n - 1), c); }
                _ => {
                    // Move a space within a string.
                    if let Some(j) = (0..n).map(|k| (i + k) % n).find(|&j| cs[j] == '"') { cs.insert(j + 1, ' '); if let Some(k) = cs.iter().rposition(|c| *c == '"') { cs.insert(k, ' '); } }
                }
            }
        }
        let mut near: String = cs.into_iter().collect();
        for _ in 0..2 {
            ctx.show(format!("grammar:\n{}\nthen:\n{}", text, near));
            let direct = sut("parse() and convert()", BIG, || { let mut d = vec![]; if parse(&bootstrap_rules(), &near, &mut d).is_err() { return None; } let mut ig = vec![]; match bootstrap::convert(&d, &mut ig) { Ok(s) if ig.is_empty() => Some(s), _ => None } })?;
            let got = sut("syntax()", BIG, || syntax(&near))?;
            ensure!(got.is_ok() == direct.is_some(), "compiled right after another grammar: {:?}, on its own it is {}", got.as_ref().err(), if direct.is_some() { "correct" } else { "wrong" });
            if let (Ok(x), Some(y)) = (got, direct) { ensure!(x == sut("optimize()", BIG, || y.optimize())?, "a grammar compiled right after another gives other rules"); ctx.label("another grammar right behind"); }
            // And with its spaces in other places.
            near = near.replace(" \"", "\u{0}").replace("\" ", " \"").replace('\u{0}', "\" ");
            if !src.bool() { break; }
        }
    }
    // Different rules.
    let mut h = g.clone();
    tweak(&mut h, src);
    if h != g {
        let other = h.to_syntax();
        let opt = sut("optimize()", BIG, || other.clone().optimize())?;
        ctx.show(format!("grammar:\n{}\nother grammar:\n{}", text, Printer::plain().grammar(&h, &[])));
        ensure!(other != raw && raw != other, "grammars with different rules are equal");
        ensure!(opt != a && a != opt, "optimized grammars with different rules are equal");
        ctx.label("compared with a different grammar");
    }
    // Documents.
    let docs: Vec<String> = match big {
        Some(t) => { let mut u = t.clone(); u.push('?'); vec![t, u] }
        None => (0..4).map(|_| text_for(&g, src, &alpha, 0, 4)).collect(),
    };
    ctx.show(format!("grammar:\n{}\ndocuments: {:?}", text, docs));
    let first: Vec<Option<Res>> = docs.iter().map(|d| run_one(&a, d)).collect();
    // Another order, with the copy, and with failures in between.
    for i in (0..docs.len()).rev() {
        let again = run_one(if i % 2 == 0 { &b } else { &a }, &docs[i]);
        ensure!(equal_res(&first[i], &again), "document {:?}: first {:?}, then {:?}", docs[i], first[i].as_ref().map(|x| &x.0), again.as_ref().map(|x| &x.0));
    }
    // With settings, some of them in a row.
    if src.chance(1, 3) {
        let sets: Vec<Settings> = (0..2).map(|_| gen_settings(src)).collect();
        let i = src.below(docs.len());
        let run = |s: &Syntax, k: usize| -> Option<Res> {
            let set = lib_settings(&sets[k]);
            match sut_within("parse_with_indent()", if docs[i].len() > 600 { LARGE_BUDGET } else { 100_000 }, || { let mut d = vec![]; let r = parse_with_indent(s, &docs[i], &mut d, &set); if r.is_err() { d.clear(); } (r, d) }) { Ok(x) => x, Err(_) => None }
        };
        let mut seen: [Option<Option<Res>>; 2] = [None, None];
        for k in [0, 0, 1, 0, 1, 1] {
            let r = run(&a, k);
            match &seen[k] {
                None => seen[k] = Some(r),
                Some(f) => ensure!(equal_res(f, &r), "document {:?} with {}: first {:?}, then {:?}", docs[i], show_settings(&sets[k]), f.as_ref().map(|x| &x.0), r.as_ref().map(|x| &x.0)),
            }
        }
        ctx.label("settings in turns");
    }
    let threads = src.chance(1, 6);
    if threads {
        ctx.label("shared by threads");
        let s = Arc::new(a);
        let docs = Arc::new(docs.clone());
        let text = Arc::new(text.clone());
        let hs: Vec<_> = (0..4usize).map(|k| {
            let (s, docs, text) = (s.clone(), docs.clone(), text.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut out = vec![];
                for j in 0..docs.len() {
                    let i = (j + k) % docs.len();
                    out.push((i, run_one(&s, &docs[i])));
                }
                // Compiling at the same time.
                let same = match sut_within("syntax()", BIG, || syntax(&text)) { Ok(Some(Ok(x))) => x == *s, _ => false };
                (out, same)
            }).unwrap()
        }).collect();
        for h in hs {
            match h.join() {
                Ok((out, same_syntax)) => {
                    ensure!(same_syntax, "compiled to another syntax on a thread");
                    for (i, r) in out {
                        ensure!(equal_res(&first[i], &r), "document {:?}: first {:?}, on a thread {:?}", docs[i], first[i].as_ref().map(|x| &x.0), r.as_ref().map(|x| &x.0));
                    }
                }
                Err(_) => return fail("a thread panicked".into()),
            }
        }
    }
    let shown = ctx.shown.clone();
    ctx.eval(g.size() >= 4, key(&[&shown]), || shown.clone());
    Ok(())
}

/// Thousands of uses in a row.
pub fn many_uses() -> Verdict {
    let g = "1 a = {\"x\":\"x\" \"y\" [.$:\"n\" .w?]}\n2 doc = .s!(\",\" a:\"a\")";
    let s = compile(g)?;
    let docs = ["x,1,y", "x,", "5 ", ""];
    let mut first: Vec<Option<Res>> = vec![];
    for i in 0..9000 {
        let k = i % docs.len();
        let r = run_one(&s, docs[k]);
        if i < docs.len() { first.push(r); continue; }
        ensure!(equal_res(&first[k], &r), "document {:?}, use {}: first {:?}, now {:?}", docs[k], i + 1, first[k], r);
        if i % 6 == 0 { ensure!(compile(g)? == s, "compiled to another syntax, use {}", i + 1); }
    }
    let e = |o| Range::empty(o).wrap(ParseError::ExpectedEnd);
    let mut seen: Vec<Vec<u8>> = vec![];
    for i in 0..3000 {
        let mut w = vec![];
        sut("write()", BIG, || { ParseErrorHandler::new("ab\ncd").write(&mut w, e(i % 6)).ok(); json::write_string(&mut w, "a\n\u{1}\"").ok(); })?;
        if i < 6 { seen.push(w); } else { ensure!(seen[i % 6] == w, "use {}: {:?}", i + 1, String::from_utf8_lossy(&w)); }
    }
    Ok(())
}

/// The first use of the library, by many threads at once.
pub fn first_use() -> Verdict {
    let text = "1 a = {\"x\":\"x\" \"y\" [.$:\"n\" .w?]}\n2 doc = .l(a:\"a\")";
    let barrier = Arc::new(std::sync::Barrier::new(16));
    let hs: Vec<_> = (0..16).map(|_| { let b = barrier.clone(); std::thread::spawn(move || { b.wait(); syntax(text).ok() }) }).collect();
    let all: Vec<_> = hs.into_iter().map(|h| h.join().ok().and_then(|x| x)).collect();
    ensure!(all.iter().all(|x| x.is_some() && x == &all[0]), "concurrent first use");
    let s = syntax("1 a = {\"a\" \"b\"}").ok();
    ensure!(s == s.clone(), "a syntax differs from its copy");
    Ok(())
}

// ------------------------------------------------------------------ C24

pub fn c24(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut cfg = Cfg::default();
    match src.weighted(&[3, 2, 2]) { 1 => { cfg.w[9] = 16; cfg.w[8] = 14; } 2 => { cfg.w[10] = 14; cfg.w[11] = 14; } _ => {} }
    let mut big = None;
    let (g, alpha) = if src.chance(1, LARGE) {
        let l = large(src);
        ctx.label("large");
        ctx.label(l.kind);
        big = Some(l.text);
        (l.g, l.alpha)
    } else {
        let mut gen = Gen::new(src, cfg);
        (gen.grammar(), gen.alpha.clone())
    };
    let gtext = Printer::plain().grammar(&g, &[]);
    let opt = compile(&gtext)?;
    let raw = convert_text(&gtext)?;
    let nodes = g.number();
    for _ in 0..if big.is_some() { 1 } else { 8 } {
        let is_big = big.is_some();
        let set = if is_big { Settings::default() } else { gen_settings(src) };
        let mut text = match big.take() { Some(t) => t, None => text_for(&g, src, &alpha, set.indent as usize, 3) };
        if !is_big && src.chance(1, 12) {
            // Longer.
            let t = text.clone();
            let sep = *src.pick(&["", "\n", ",", " "]);
            for _ in 0..src.int(2, 40) { text.push_str(sep); text.push_str(&t); }
            ctx.label("long document");
        }
        ctx.show(format!("grammar:\n{}\ndocument: {:?}\nsettings: {}", gtext, text, show_settings(&set)));
        let o = match crate::model::run(&nodes, &text, &set, if is_big { LARGE_BUDGET } else { 200_000 }) { Ok(o) => o, Err(_) => { ctx.label("discarded: reference evaluation over budget"); continue; } };
        for (what, s, bound) in [("as written", &raw, o.steps), ("optimized", &opt, o.steps + o.selects)] {
            let mut d = vec![];
            // Stops when it evaluates more rules, or goes on reading lines without end.
            let r = sut_within("parse()", bound.max(text.len() as u64 * 4 + 100), || parse_with_indent(s, &text, &mut d, &lib_settings(&set)))?;
            let steps = piston_meta::verif::steps();
            ensure!(r.is_some() && steps <= bound, "{}: {} rule evaluations, the grammar requires at most {}", what, steps, bound);
            ensure!(d.capacity() as u64 <= 16 + 8 * bound, "{}: {} items of buffer for {} rule evaluations", what, d.capacity(), bound);
            if r.unwrap().is_ok() { ctx.label("accepted"); } else { ctx.label("rejected"); }
        }
        if o.steps >= 100 { ctx.label("100 or more evaluations"); }
        let shown = ctx.shown.clone();
        ctx.eval(o.steps >= 8, key(&[&gtext, &text, &show_settings(&set)]), || shown);
    }
    Ok(())
}
