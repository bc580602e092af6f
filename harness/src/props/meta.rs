//! C13-C15: reading meta data.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gram::*;
use crate::model::Item;
use crate::print::Printer;
use crate::props::language::equal_syntax;
use piston_meta::bootstrap::{convert, Convert};
use piston_meta::*;
use piston_meta_search::Search;
use std::sync::Arc;

const VOCAB: &[&str] = &[
    "node", "rule", "sequence", "select", "tag", "text", "string", "id", "name", "optional", "property", "value", "ref",
    "any_characters", "until_any", "until_any_or_whitespace", "whitespace", "number", "underscore", "reference", "not", "inverted",
    "separated_by", "allow_trail", "by", "repeat", "lines", "indent", "allow_empty", "junk", "",
];

fn sn(s: &str) -> MetaData { MetaData::StartNode(Arc::new(s.into())) }
fn en(s: &str) -> MetaData { MetaData::EndNode(Arc::new(s.into())) }
fn mb(s: &str, v: bool) -> MetaData { MetaData::Bool(Arc::new(s.into()), v) }
fn ms(s: &str, v: &str) -> MetaData { MetaData::String(Arc::new(s.into()), Arc::new(v.into())) }
fn mf(s: &str, v: f64) -> MetaData { MetaData::F64(Arc::new(s.into()), v) }

// ------------------------------------------------------------------ C13

/// Spells a grammar as meta data, with properties in random order and unknown items between them.
struct Spell<'a> {
    src: &'a mut Src,
    out: Vec<MetaData>,
    unknown: u64,
    permute: bool,
    skipped: Vec<(usize, usize)>,
    strings: Vec<(String, String)>,
}

impl<'a> Spell<'a> {
    fn junk(&mut self, known: &[&str], depth: usize) {
        // An item that means nothing here.
        match self.src.weighted(&[3, 2, 2, if depth > 0 { 3 } else { 0 }]) {
            0 => { let n = self.name(known); self.out.push(MetaData::Bool(n, true)); }
            1 => { let n = self.name(known); let v = *self.src.pick(&["v", "", "optional"]); self.out.push(MetaData::String(n, Arc::new(v.into()))); }
            2 => { let n = self.name(known); self.out.push(MetaData::F64(n, 1.5)); }
            _ => {
                let n = self.name(known);
                if self.src.chance(1, 60) {
                    // A deep item.
                    let deep = 1 + self.src.magnitude(600);
                    let m = self.name(&[]);
                    for _ in 0..deep { self.out.push(MetaData::StartNode(n.clone())); self.out.push(MetaData::Bool(m.clone(), true)); }
                    for _ in 0..deep { self.out.push(MetaData::EndNode(n.clone())); }
                    return;
                }
                self.out.push(MetaData::StartNode(n.clone()));
                for _ in 0..self.src.len(4) {
                    if self.src.bool() {
                        // What would mean something outside.
                        let x = match self.src.below(5) {
                            0 => mb("optional", true), 1 => ms("name", "other"), 2 => ms("value", "other"), 3 => mb("not", true), _ => mf("id", 9.0),
                        };
                        self.out.push(x);
                    } else {
                        self.junk(&[], depth - 1);
                    }
                }
                if self.src.chance(1, 3) {
                    for x in [sn("rule"), sn("whitespace"), mb("optional", true), en("whitespace"), en("rule")] { self.out.push(x); }
                }
                self.out.push(MetaData::EndNode(n));
            }
        }
    }

    fn name(&mut self, known: &[&str]) -> Arc<String> {
        if let Some(w) = self.src.known(8) { if !known.contains(&w) { return Arc::new(w.to_string()); } }
        let n = *self.src.pick(&["junk", "Optional", "", "rules", "comment", "é", "properties", "Rule", "rule ", "end", "*"]);
        let v = *self.src.pick(VOCAB);
        if self.src.chance(1, 3) && !known.contains(&v) && !known.is_empty() { Arc::new(v.into()) } else { Arc::new(n.into()) }
    }

    /// Maybe an unknown item.
    fn gap(&mut self, known: &[&str]) {
        while self.src.chance(self.unknown, 100) {
            let start = self.out.len();
            self.junk(known, 2);
            self.skipped.push((start, self.out.len() - start));
        }
    }

    fn order(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        if self.permute { for i in (1..n).rev() { let j = i - self.src.below(i + 1); v.swap(i, j); } }
        v
    }

    fn set(&mut self, node: &str, val: &str) {
        self.out.push(sn(node));
        if self.src.chance(1, 4) {
            let name = format!("s{}", self.strings.len());
            let name = match self.strings.iter().find(|x| x.1 == val) { Some(x) => x.0.clone(), None => { self.strings.push((name.clone(), val.into())); name } };
            self.out.push(ms("ref", &name));
        } else {
            self.out.push(ms("value", val));
        }
        self.out.push(en(node));
    }

    fn prop(&mut self, p: &Option<String>) -> bool {
        if let Some(p) = p { self.set("property", p); }
        p.is_some()
    }

    fn flag(&mut self, name: &str, v: bool, default: Option<bool>) {
        // What is left out is the default.
        if default == Some(v) && self.src.bool() { return; }
        self.out.push(mb(name, v));
    }

    fn rule(&mut self, wrap: &str, r: &R) {
        self.out.push(sn(wrap));
        let node = match r {
            R::Ws(_) => "whitespace", R::Tag { .. } => "tag", R::Until { ws: true, .. } => "until_any_or_whitespace",
            R::Until { .. } => "until_any", R::Text { .. } => "text", R::Num { .. } => "number", R::Sel(_) => "select",
            R::Seq(_) => "sequence", R::Sep { .. } => "separated_by", R::Rep { .. } => "repeat", R::Lines { .. } => "lines",
            R::Ref { .. } => "reference", R::Opt(_) => "optional", R::Not(_) => "not",
        };
        self.out.push(sn(node));
        let known: &[&str] = match r {
            R::Sel(_) | R::Seq(_) => &["rule"],
            R::Tag { .. } => &["text", "property", "not", "inverted"],
            R::Until { .. } => &["any_characters", "optional", "property"],
            R::Text { .. } => &["allow_empty", "property"],
            R::Num { .. } => &["underscore", "property"],
            R::Ref { .. } => &["name", "property"],
            R::Sep { .. } => &["by", "rule", "optional", "allow_trail"],
            R::Rep { .. } => &["rule", "optional"],
            _ => &[],
        };
        match r {
            R::Ws(o) => self.out.push(mb("optional", *o)),
            R::Sel(v) | R::Seq(v) => {
                for r in v { self.gap(known); self.rule("rule", r); }
                self.gap(known);
            }
            R::Tag { text, not, inv, prop } => {
                for i in self.order(4) {
                    self.gap(known);
                    match i { 0 => self.set("text", text), 1 => { self.prop(prop); }, 2 => self.flag("not", *not, Some(false)), _ => self.flag("inverted", *inv, Some(false)) }
                }
                self.gap(known);
            }
            R::Until { any, opt, prop, .. } => {
                for i in self.order(3) {
                    self.gap(known);
                    match i { 0 => self.set("any_characters", any), 1 => self.flag("optional", *opt, Some(false)), _ => { self.prop(prop); } }
                }
                self.gap(known);
            }
            R::Text { empty, prop } => {
                for i in self.order(2) {
                    self.gap(known);
                    match i { 0 => self.flag("allow_empty", *empty, Some(true)), _ => { self.prop(prop); } }
                }
                self.gap(known);
            }
            R::Num { us, prop } => {
                for i in self.order(2) {
                    self.gap(known);
                    match i { 0 => self.flag("underscore", *us, Some(false)), _ => { self.prop(prop); } }
                }
                self.gap(known);
            }
            R::Ref { name, prop } => {
                for i in self.order(2) {
                    self.gap(known);
                    match i { 0 => self.out.push(ms("name", name)), _ => { self.prop(prop); } }
                }
                self.gap(known);
            }
            R::Sep { by, rule, opt, trail } => {
                // The order of the two rules decides their debug ids.
                let at = [self.src.below(3), self.src.below(3)];
                for i in 0..3 {
                    if at[0] == i { self.gap(known); self.flag("optional", *opt, Some(true)); }
                    if at[1] == i { self.gap(known); self.flag("allow_trail", *trail, Some(false)); }
                    self.gap(known);
                    match i { 0 => self.rule("by", by), 1 => self.rule("rule", rule), _ => {} }
                }
            }
            R::Rep { rule, opt } => {
                for i in self.order(2) {
                    self.gap(known);
                    match i { 0 => self.rule("rule", rule), _ => self.out.push(mb("optional", *opt)) }
                }
                self.gap(known);
            }
            R::Lines { rule, indent } => { self.flag("indent", *indent, Some(false)); self.rule("rule", rule); }
            R::Opt(r) | R::Not(r) => self.rule("rule", r),
        }
        self.out.push(en(node));
        self.out.push(en(wrap));
    }

    fn grammar(&mut self, g: &Grammar) {
        for n in &g.nodes {
            self.out.push(sn("node"));
            let known = &["id", "name", "rule"];
            for i in self.order(2) {
                self.gap(known);
                match i { 0 => self.out.push(mf("id", n.id as f64)), _ => self.out.push(ms("name", &n.name)) }
            }
            self.gap(known);
            self.rule("rule", &n.rule);
            self.gap(known);
            self.out.push(en("node"));
        }
        let mut front = vec![];
        for (n, v) in &self.strings {
            let (a, b) = (ms("name", n), ms("text", v));
            front.push(sn("string"));
            if self.permute && n.len() % 2 == 0 { front.push(b); front.push(a); } else { front.push(a); front.push(b); }
            front.push(en("string"));
        }
        for s in &mut self.skipped { s.0 += front.len(); }
        front.extend(self.out.drain(..));
        self.out = front;
    }
}

fn ranges(d: Vec<MetaData>) -> Vec<Item> {
    d.into_iter().enumerate().map(|(i, d)| Range::new(i * 3, 2).wrap(d)).collect()
}

fn show_data(d: &[Item]) -> String { d.iter().map(|x| format!("{:?}", x.data)).collect::<Vec<_>>().join("\n  ") }

fn convert_limit(n: usize) -> u64 { let n = n as u64; 4000 + 400 * n * (n + 1) }

fn run_convert(d: &[Item]) -> Result<(Result<Syntax, ()>, Vec<Range>), Stop> {
    let mut ignored = vec![];
    let r = sut("convert()", convert_limit(d.len()), || convert(d, &mut ignored))?;
    for i in &ignored {
        ensure!(i.next_offset() <= d.len() && i.length > 0, "reported as skipped: {}..{} of {} items", i.offset, i.next_offset(), d.len());
    }
    Ok((r, ignored))
}

/// The end of the item or node that starts at an item.
fn item_end(t: &[Item], i: usize) -> Option<usize> {
    let mut depth = 0i64;
    for (k, x) in t[i..].iter().enumerate() {
        match x.data { MetaData::StartNode(_) => depth += 1, MetaData::EndNode(_) => depth -= 1, _ => {} }
        if depth < 0 { return None; }
        if depth == 0 { return Some(i + k + 1); }
    }
    None
}

fn random_data(src: &mut Src) -> Vec<MetaData> {
    let n = src.int(0, 30);
    let mut out = vec![];
    let mut open: Vec<&str> = vec![];
    if src.chance(3, 4) { out.push(sn("node")); open.push("node"); }
    for _ in 0..n {
        let name = match src.known(20) { Some(w) => w, None => *src.pick(VOCAB) };
        match src.weighted(&[6, 6, 3, 3, 2, 1]) {
            0 => { out.push(sn(name)); open.push(name); }
            1 => match open.pop() { Some(o) => out.push(en(o)), None => out.push(ms(name, "a")) },
            2 => out.push(mb(name, src.bool())),
            3 => out.push(ms(name, "a")),
            4 => out.push(mf(name, *src.pick(&[0.0, 1.0, -1.0, 1e300, f64::NAN, f64::INFINITY, 0.5, 1e19]))),
            _ => out.push(en(name)),
        }
    }
    if src.chance(4, 5) { while let Some(o) = open.pop() { out.push(en(o)); } }
    out
}

pub fn c13(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    match src.weighted(&[4, 2, 3]) {
        0 => {
            let mut cfg = Cfg::default();
            cfg.not_tag = true;
            let g = Gen::new(src, cfg).grammar();
            let unknown = *src.pick(&[15, 0, 5, 30]);
            let permute = src.chance(3, 4);
            let (out, skipped) = {
                let mut s = Spell { src, out: vec![], unknown, permute, skipped: vec![], strings: vec![] };
                s.grammar(&g);
                (s.out, s.skipped)
            };
            if src.chance(1, 12) {
                // Between strings and nodes, or behind them, nothing else is known.
                let mut d = out.clone();
                let mut at = vec![0];
                let mut depth = 0;
                for (i, x) in d.iter().enumerate() {
                    match x { MetaData::StartNode(_) => depth += 1, MetaData::EndNode(_) => depth -= 1, _ => {} }
                    if depth == 0 { at.push(i + 1); }
                }
                let at = at[at.len() - 1 - src.below(at.len())];
                let n = *src.pick(&["unknown", "rule", "text", "name", "id", ""]);
                let x = match src.below(4) { 0 => vec![mb(n, true)], 1 => vec![ms(n, "x")], 2 => vec![mf(n, 2.0)], _ => vec![sn(n), en(n)] };
                for (k, x) in x.into_iter().enumerate() { d.insert(at + k, x); }
                let d = ranges(d);
                ctx.show(format!("data with item {} unknown:\n  {}", at, show_data(&d)));
                let (r, _) = run_convert(&d)?;
                ensure!(r.is_err(), "converts in spite of the item at {} that is neither string nor node", at);
                ctx.label("unknown item outside of rules");
                let shown = ctx.shown.clone();
                ctx.eval(true, key(&[&shown]), || shown);
                return Ok(());
            }
            let d = ranges(out);
            ctx.show(format!("grammar:\n{}\ndata:\n  {}", Printer::plain().grammar(&g, &[]), show_data(&d)));
            let (r, ignored) = run_convert(&d)?;
            match r {
                Err(()) => return fail("conversion failed".into()),
                Ok(s) => equal_syntax("converted with properties in another order or unknown items", &s, &g.to_syntax())?,
            }
            let mut got: Vec<(usize, usize)> = ignored.iter().map(|r| (r.offset, r.length)).collect();
            let mut want = skipped.clone();
            got.sort();
            want.sort();
            ensure!(got == want, "reported as skipped {:?}, unknown items are at {:?}", got, want);
            ctx.label("valid data, permuted or extended");
            if !skipped.is_empty() { ctx.label("unknown items"); }
            let shown = ctx.shown.clone();
            ctx.eval(!skipped.is_empty() || permute, key(&[&shown]), || shown);
        }
        1 => {
            let d = ranges(random_data(src));
            ctx.show(format!("data:\n  {}", show_data(&d)));
            let (r, _) = run_convert(&d)?;
            ctx.label(if balanced(&d) { "random data, balanced" } else { "random data, not balanced" });
            ctx.label(if r.is_ok() { "random data converts" } else { "random data is refused" });
            let shown = ctx.shown.clone();
            ctx.eval(d.len() >= 4, key(&[&shown]), || shown);
        }
        _ => {
            // Data of a grammar, with a few items changed.
            let g = Gen::new(src, Cfg { max_nodes: 2, depth: 3, ..Cfg::default() }).grammar();
            let text = Printer::plain().grammar(&g, &[]);
            let mut t = vec![];
            if parse(&bootstrap_rules(), &text, &mut t).is_err() { return fail(format!("grammar rejected: {}", text)); }
            let keep = src.chance(2, 3);
            for _ in 0..src.int(1, 3) {
                let i = src.below(t.len() + 1);
                if keep && i < t.len() {
                    // Edits that keep nodes balanced.
                    let end = match item_end(&t, i) { Some(e) => e, None => continue };
                    match src.weighted(&[3, 2, 2, 3, 2, 2]) {
                        0 => { t.drain(i..end); }
                        1 => { let x = t[i..end].to_vec(); for (k, x) in x.into_iter().enumerate() { t.insert(end + k, x); } }
                        2 => {
                            // Change places with the next item.
                            if let Some(e2) = if end < t.len() { item_end(&t, end) } else { None } { t[i..e2].rotate_left(end - i); }
                        }
                        3 => {
                            let n = *src.pick(VOCAB);
                            let x = match src.below(4) { 0 => vec![sn(n), en(n)], 1 => vec![mb(n, true)], 2 => vec![ms(n, "x")], _ => vec![mf(n, 2.0)] };
                            for (k, x) in x.into_iter().enumerate() { t.insert(i + k, Range::empty(0).wrap(x)); }
                        }
                        4 => {
                            let n = *src.pick(VOCAB);
                            let x = match &t[i].data {
                                MetaData::StartNode(_) => { t[end - 1].data = en(n); sn(n) }
                                MetaData::Bool(_, v) => mb(n, *v), MetaData::F64(_, v) => mf(n, *v),
                                MetaData::String(_, v) => ms(n, v), MetaData::EndNode(_) => continue,
                            };
                            t[i].data = x;
                        }
                        _ => {
                            let n = *src.pick(VOCAB);
                            t.insert(end, Range::empty(0).wrap(en(n)));
                            t.insert(i, Range::empty(0).wrap(sn(n)));
                        }
                    }
                    continue;
                }
                match src.weighted(&[3, 2, 2, 3, 1]) {
                    0 => if i < t.len() { t.remove(i); },
                    1 => if i < t.len() { let x = t[i].clone(); t.insert(i, x); },
                    2 => if i + 1 < t.len() { t.swap(i, i + 1); },
                    3 => {
                        let n = *src.pick(VOCAB);
                        let x = match src.below(5) { 0 => sn(n), 1 => en(n), 2 => mb(n, true), 3 => ms(n, "x"), _ => mf(n, 2.0) };
                        t.insert(i, Range::empty(0).wrap(x));
                    }
                    _ => t.truncate(i),
                }
            }
            ctx.show(format!("data:\n  {}", show_data(&t)));
            let (r, _) = run_convert(&t)?;
            if r.is_ok() { ctx.label("mutated data converts"); }
            ctx.label(if balanced(&t) { "mutated data, balanced" } else { "mutated data, not balanced" });
            let shown = ctx.shown.clone();
            ctx.eval(t.len() >= 4, key(&[&shown]), || shown);
        }
    }
    Ok(())
}

pub fn pinned_unbalanced() -> Verdict {
    for d in [
        vec![sn("node")],
        vec![sn("node"), sn("rule")],
        vec![sn("node"), sn("rule"), sn("sequence")],
        vec![sn("node"), sn("rule"), sn("sequence"), en("rule"), en("node")],
        vec![sn("node"), en("x"), en("node")],
        vec![en("node")],
        vec![sn("string"), ms("name", "a")],
        vec![],
    ] {
        run_convert(&ranges(d))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C14

const NAMES: &[&str] = &["a", "b", "", "é", "aa"];

/// Names that are not the same, though nearly.
const SIMILAR: &[&str] = &["allow_trail", "Allow_Trail", "ALLOW_TRAIL", "allow_trail ", " allow_trail", "allow-trail", "allow_trai", "allow_trails", "llow_trail", "liart_wolla", "A", "\u{c9}", "e\u{301}", "a\0"];

fn some_name(src: &mut Src) -> &'static str {
    if src.chance(1, 10) { return src.pick(SIMILAR); }
    match src.known(12) { Some(w) => w, None => src.pick(NAMES) }
}

fn gen_items(src: &mut Src, max: usize, nested: bool) -> Vec<Item> {
    let mut out = vec![];
    let mut open: Vec<&str> = vec![];
    let n = src.int(0, max);
    for _ in 0..n {
        let name = some_name(src);
        match src.weighted(&[3, 3, 3, 3, 3]) {
            0 => out.push(mb(name, src.bool())),
            1 => { out.push(sn(name)); open.push(name); }
            2 => match open.pop() {
                Some(o) if nested || src.bool() => out.push(en(o)),
                _ => if nested { out.push(mf(name, 1.0)) } else { out.push(en(name)) },
            },
            3 => out.push(ms(name, match src.known(12) { Some(w) => w, None => *src.pick(&["v", "w", "", "日本", "a much longer text than the others"]) })),
            _ => out.push(mf(name, match src.known_number(8) { Some(x) => x, None => *src.pick(&[1.0, 2.0, -0.0, 0.0, -1.5, 1e300, 5e-324, f64::INFINITY, f64::NAN]) })),
        }
    }
    if nested { while let Some(o) = open.pop() { out.push(en(o)); } }
    if src.chance(1, 1500) {
        // Many items, in a node or not.
        let n = src.magnitude(20_000);
        let mut c = Cheap::new(src);
        let mut many = vec![];
        let mut depth = vec![];
        for i in 0..n {
            let name = *c.pick(NAMES);
            match c.below(5) {
                0 => many.push(mb(name, i % 2 == 0)),
                1 => { many.push(sn(name)); depth.push(name); }
                2 => if let Some(o) = depth.pop() { many.push(en(o)); },
                3 => many.push(ms(name, "v")),
                _ => many.push(mf(name, i as f64)),
            }
        }
        while let Some(o) = depth.pop() { many.push(en(o)); }
        if src.bool() { many.insert(0, sn("a")); many.push(en("a")); }
        many.push(mb("b", true));
        if src.bool() { many.append(&mut out); out = many; } else { out.append(&mut many); }
    }
    // Ranges in the source.
    let mut at = src.below(4);
    out.into_iter().map(|d| {
        at += src.below(3);
        let len = if let MetaData::StartNode(_) = d { 0 } else { src.below(4) };
        let r = Range::new(at, len).wrap(d);
        at += len;
        r
    }).collect()
}

pub fn c14(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    // Nodes that are not closed, or not opened, only matter where a whole node is skipped.
    let nested = src.chance(5, 6);
    let d = gen_items(src, 14, nested);
    let mut shown = format!("data:\n  {}\noperations:", show_items(&d));
    let mut saved: Vec<(Convert, usize)> = vec![(Convert::new(&d), 0)];
    let mut c = Convert::new(&d);
    let mut at = 0usize;
    let mut moves = 0;
    for _ in 0..src.int(1, 24) {
        // Names that are there are more interesting.
        let name: String = if at < d.len() && src.chance(2, 3) {
            match &d[at].data {
                MetaData::StartNode(n) | MetaData::EndNode(n) | MetaData::Bool(n, _) | MetaData::F64(n, _) | MetaData::String(n, _) => n.to_string(),
            }
        } else { some_name(src).to_string() };
        let op = src.below(9);
        shown.push_str(&format!("\n  {} {:?}", ["start_node", "end_node", "meta_bool", "meta_f64", "meta_string", "ignore", "save", "restore", "catch up"][op], name));
        ctx.show(shown.clone());
        let next = d.get(at).map(|x| &x.data);
        let hand: Option<(Range, usize)> = match op {
            0..=4 => {
                let (got, want): (Option<Range>, bool) = match op {
                    0 => (c.start_node(&name).ok(), matches!(next, Some(MetaData::StartNode(n)) if **n == name)),
                    1 => (c.end_node(&name).ok(), matches!(next, Some(MetaData::EndNode(n)) if **n == name)),
                    2 => {
                        let r = c.meta_bool(&name);
                        let want = if let Some(MetaData::Bool(n, v)) = next { if **n == name { Some(*v) } else { None } } else { None };
                        ensure!(r.as_ref().ok().map(|x| x.1) == want, "meta_bool gives {:?}, next item is {:?}", r, next);
                        (r.ok().map(|x| x.0), want.is_some())
                    }
                    3 => {
                        let r = c.meta_f64(&name);
                        let want = if let Some(MetaData::F64(n, v)) = next { if **n == name { Some(v.to_bits()) } else { None } } else { None };
                        ensure!(r.as_ref().ok().map(|x| x.1.to_bits()) == want, "meta_f64 gives {:?}, next item is {:?}", r, next);
                        (r.ok().map(|x| x.0), want.is_some())
                    }
                    _ => {
                        let r = c.meta_string(&name);
                        let want = if let Some(MetaData::String(n, v)) = next { if **n == name { Some(v.clone()) } else { None } } else { None };
                        ensure!(r.as_ref().ok().map(|x| x.1.clone()) == want, "meta_string gives {:?}, next item is {:?}", r, next);
                        (r.ok().map(|x| x.0), want.is_some())
                    }
                };
                ensure!(got.is_some() == want, "result {:?}, next item is {:?}", got, next);
                got.map(|r| (r, 1))
            }
            5 => {
                // One item, or one node with everything in it.
                let r = sut("ignore()", 100_000, || c.ignore())?;
                if next.is_none() {
                    ensure!(r.length == 0, "ignores {} items of none", r.length);
                    None
                } else if let Some(MetaData::EndNode(_)) = next {
                    None // The end of the node the cursor is in: not an item.
                } else {
                    let mut depth = 0i64;
                    let mut n = 0;
                    for x in &d[at..] {
                        n += 1;
                        match x.data { MetaData::StartNode(_) => depth += 1, MetaData::EndNode(_) => depth -= 1, _ => {} }
                        if depth == 0 { break; }
                    }
                    if depth == 0 { Some((r, n)) } else { None }
                }
            }
            6 => { saved.push((c, at)); None }
            8 => {
                // A cursor that is somewhere on the way catches up with this one.
                let (start, from) = saved[src.below(saved.len())];
                let (mut other, there) = saved[src.below(saved.len())];
                if from <= there && there <= at {
                    let r = c.subtract(start);
                    ensure!(r.offset == from && r.length == at - from, "distance {}..{}, expected {}..{}", r.offset, r.next_offset(), from, at);
                    {
                        shown.push_str(&format!(" from {} with the distance from {}", there, from));
                        ctx.show(shown.clone());
                        sut("update()", 1000, || other.update(r))?;
                        ensure!(other.remaining_data_len() == d.len() - at, "{} items remain, expected {}", other.remaining_data_len(), d.len() - at);
                        let r = other.subtract(start);
                        ensure!(r.offset == from && r.length == at - from, "distance after catching up {}..{}, expected {}..{}", r.offset, r.next_offset(), from, at);
                        if from < there && there < at { ctx.label("caught up from between"); }
                        if src.bool() { c = other; }
                    }
                }
                None
            }
            _ => { let (c2, at2) = saved[src.below(saved.len())]; c = c2; at = at2; None }
        };
        if let Some((r, n)) = hand {
            ensure!(r.offset == at && r.length == n, "the range handed out is {}..{}, expected {}..{}", r.offset, r.next_offset(), at, at + n);
            if src.chance(3, 4) {
                sut("update()", 1000, || c.update(r))?;
                at += n;
                moves += 1;
                shown.push_str(" and update");
            }
        }
        ctx.show(shown.clone());
        ensure!(c.remaining_data_len() == d.len() - at, "{} items remain, expected {}", c.remaining_data_len(), d.len() - at);
        let (c0, at0) = saved[src.below(saved.len())];
        if at0 <= at {
            let r = c.subtract(c0);
            ensure!(r.offset == at0 && r.length == at - at0, "distance {}..{}, expected {}..{}", r.offset, r.next_offset(), at0, at);
            let s = c.source(c0);
            let want = if at0 == at { None } else { Some((d[at0].offset, d[at - 1].next_offset())) };
            ensure!(s.map(|r| (r.offset, r.next_offset())) == want, "source {:?}, expected {:?}", s, want);
        } else {
            // Nothing was read from there to here.
            let s = sut("source()", 1000, || c.source(c0))?;
            ensure!(s.is_none(), "source {:?} from a later position", s);
        }
    }
    if moves >= 3 { ctx.label("three or more advances"); }
    let s = ctx.shown.clone();
    ctx.eval(moves >= 2, key(&[&s]), || s);
    Ok(())
}

// ------------------------------------------------------------------ C15

pub fn c15(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let nested = src.chance(1, 2);
    let d = gen_items(src, 14, nested);
    let base = format!("data:\n  {}\noperations:", show_items(&d));
    ctx.show(base.clone());
    let n_ops = src.int(1, 16);
    let mut shown = base;
    let mut moves = 0u32;
    step(src, ctx, &d, Search::new(&d), 0, None, n_ops, &mut shown, &mut moves)?;
    if moves >= 3 { ctx.label("three or more advances"); }
    let s = ctx.shown.clone();
    ctx.eval(moves >= 2, key(&[&s]), || s);
    Ok(())
}

fn message(e: &Range<ParseError>) -> (usize, usize) { (e.offset, e.length) }

/// Continues a history; `at`: items before the position, `last`: range of the last item read.
fn step(src: &mut Src, ctx: &mut Ctx, d: &[Item], mut s: Search, mut at: usize, mut last: Option<Range>, mut ops: usize,
    shown: &mut String, moves: &mut u32) -> Verdict {
    while ops > 0 {
        ops -= 1;
        ensure!(s.data.len() == d.len() - at && crate::model::same(s.data, &d[at..]), "the remaining data is not the rest from item {}", at);
        ensure!(s.range == last, "the last range is {:?}, expected {:?}", s.range, last);
        let near = if at < d.len() && src.chance(2, 3) { Some(&d[at + if src.chance(1, 3) { src.below(d.len() - at) } else { 0 }].data) } else { None };
        let name: String = match near {
            Some(MetaData::StartNode(n)) | Some(MetaData::EndNode(n)) | Some(MetaData::Bool(n, _)) | Some(MetaData::F64(n, _)) | Some(MetaData::String(n, _)) => n.to_string(),
            None => some_name(src).to_string(),
        };
        let kind = match near {
            Some(MetaData::Bool(..)) if src.chance(2, 3) => 0, Some(MetaData::F64(..)) if src.chance(2, 3) => 1,
            Some(MetaData::String(..)) if src.chance(2, 3) => 2, Some(MetaData::StartNode(..)) if src.chance(2, 3) => 3,
            Some(MetaData::EndNode(..)) if src.chance(2, 3) => 4, _ => src.below(5),
        };
        let search = src.chance(1, 3);
        let (vb, vf, vs) = match near {
            Some(MetaData::Bool(_, v)) if src.bool() => (*v, 1.0, "v".to_string()),
            Some(MetaData::F64(_, v)) if src.bool() => (true, *v, "v".to_string()),
            Some(MetaData::String(_, v)) if src.bool() => (true, 1.0, v.to_string()),
            _ => (src.bool(), *src.pick(&[1.0, 2.0, 0.0]), src.pick(&["v", "w", ""]).to_string()),
        };
        let kinds = ["bool", "f64", "string", "node", "end_node"];
        shown.push_str(&format!("\n  {}{} {:?}", if search { "for_" } else { "" }, kinds[kind], name));
        if search { match kind { 0 => shown.push_str(&format!(" {}", vb)), 1 => shown.push_str(&format!(" {}", vf)), 2 => shown.push_str(&format!(" {:?}", vs)), _ => {} } }
        ctx.show(shown.clone());
        let is = |x: &MetaData, value: bool| -> bool {
            match (kind, x) {
                (0, MetaData::Bool(n, v)) => **n == name && (!value || *v == vb),
                (1, MetaData::F64(n, v)) => **n == name && (!value || *v == vf),
                (2, MetaData::String(n, v)) => **n == name && (!value || **v == vs),
                (3, MetaData::StartNode(n)) => **n == name,
                (4, MetaData::EndNode(n)) => **n == name,
                _ => false,
            }
        };
        if search {
            let want = d[at..].iter().position(|x| is(&x.data, true)).map(|i| at + i);
            // The closure gets the position behind the match.
            let mut got: Option<(usize, Option<Range>)> = None;
            let go_on = src.bool();
            let mut inner: Verdict = Ok(());
            let res = {
                let f = |s2: Search| -> Result<u32, Range<ParseError>> {
                    got = Some((d.len() - s2.data.len(), s2.range));
                    let expected = want.map(|i| i + 1);
                    if expected != Some(d.len() - s2.data.len()) { return Ok(7); }
                    if go_on {
                        let r = s2.range;
                        *moves += 1;
                        inner = step(src, ctx, d, Search { range: s2.range, data: s2.data }, d.len() - s2.data.len(), r, ops.min(4), shown, moves);
                    }
                    if go_on { Ok(7) } else { Err(Range::new(1, 2).wrap(ParseError::NoRules)) }
                };
                match kind {
                    0 => s.for_bool(&name, vb, f),
                    1 => s.for_f64(&name, vf, f),
                    2 => s.for_string(&name, &vs, f),
                    3 => s.for_node(&name, f),
                    _ => s.for_end_node(&name, f),
                }
            };
            inner?;
            match want {
                Some(i) => {
                    let range = Range::new(d[i].offset, d[i].length);
                    ensure!(got == Some((i + 1, Some(range))), "the search continues at {:?}, expected {:?}", got, (i + 1, range));
                    match res {
                        Ok(7) => ensure!(go_on, "the error of the closure is lost"),
                        Ok(x) => return fail(format!("result {}", x)),
                        Err(e) => ensure!(!go_on && message(&e) == (1, 2) && e.data == ParseError::NoRules, "error {:?} instead of the result of the closure", e),
                    }
                    ctx.label("search that finds");
                    if i > at { ctx.label("search over other items"); }
                }
                None => {
                    ensure!(got.is_none(), "found at {:?} what is not there", got);
                    match res {
                        Ok(_) => return fail("a search succeeds without a match".into()),
                        Err(e) => {
                            let r = last.unwrap_or(Range::empty(0));
                            ensure!(message(&e) == (r.offset, r.length), "error at {}..{}, expected the last range {:?}", e.offset, e.next_offset(), r);
                        }
                    }
                    ctx.label("search without match");
                }
            }
        } else {
            let want = at < d.len() && is(&d[at].data, false);
            let (err, value): (Option<Range<ParseError>>, Option<MetaData>) = {
                let a = Arc::new(name.clone());
                match kind {
                    0 => match s.bool(&name) { Ok(v) => (None, Some(MetaData::Bool(a, v))), Err(e) => (Some(e), None) },
                    1 => match s.f64(&name) { Ok(v) => (None, Some(MetaData::F64(a, v))), Err(e) => (Some(e), None) },
                    2 => match s.string(&name) { Ok(v) => (None, Some(MetaData::String(a, v))), Err(e) => (Some(e), None) },
                    3 => match s.node(&name) { Ok(()) => (None, Some(MetaData::StartNode(a))), Err(e) => (Some(e), None) },
                    _ => match s.end_node(&name) { Ok(()) => (None, Some(MetaData::EndNode(a))), Err(e) => (Some(e), None) },
                }
            };
            if want {
                ensure!(value.as_ref().map(|v| crate::model::same_data(v, &d[at].data)).unwrap_or(false), "read {:?} ({:?}), next item is {:?}", value, err, d[at].data);
                last = Some(Range::new(d[at].offset, d[at].length));
                at += 1;
                *moves += 1;
                ctx.label("read");
            } else {
                let e = match err { Some(e) => e, None => return fail(format!("read {:?}, next item is {:?}", value, d.get(at).map(|x| &x.data))) };
                let r = match d.get(at) { Some(x) => Range::new(x.offset, x.length), None => last.unwrap_or(Range::empty(0)) };
                ensure!(message(&e) == (r.offset, r.length), "error at {}..{}, expected {}..{}", e.offset, e.next_offset(), r.offset, r.next_offset());
                ctx.label(if at < d.len() { "read refused" } else { "read at the end" });
            }
        }
    }
    ensure!(s.data.len() == d.len() - at, "{} items remain, expected {}", s.data.len(), d.len() - at);
    ensure!(s.range == last, "the last range is {:?}, expected {:?}", s.range, last);
    Ok(())
}
