//! C26 (outputs that accept little or fail), C27 (names, numbers and order of definitions).

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gram::*;
use crate::model::same;
use crate::print::Printer;
use crate::props::output::{any_string, clone_error, gen_error, gen_items, gen_text};
use crate::textgen::*;
use piston_meta::*;
use std::collections::HashMap;
use std::io;
use std::sync::Arc;

// ------------------------------------------------------------------ C26

/// A writer that accepts few bytes at a time, is interrupted, and fails.
struct Faulty { got: Vec<u8>, step: usize, interrupt: bool, left: Option<usize>, zero: bool, calls: usize, after: usize, once: Option<usize>, writes: usize, failed: bool }

const KINDS: &[io::ErrorKind] = &[io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::PermissionDenied, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData,
    io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero, io::ErrorKind::UnexpectedEof, io::ErrorKind::ConnectionReset, io::ErrorKind::OutOfMemory];

impl io::Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() { return Ok(0); }
        if self.interrupt && self.calls % 3 == 1 { return Err(io::ErrorKind::Interrupted.into()); }
        self.writes += 1;
        if self.once == Some(self.writes) {
            self.failed = true;
            return Err(io::Error::new(KINDS[self.writes % KINDS.len()], "failed"));
        }
        let mut n = b.len();
        if self.step > 0 { n = n.min(self.step); }
        if let Some(left) = self.left {
            if left == 0 {
                self.after += 1;
                return if self.zero { Ok(0) } else { Err(io::Error::new(KINDS[self.got.len() % KINDS.len()], "failed")) };
            }
            n = n.min(left);
            self.left = Some(left - n);
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Writes with a faulty writer; `full` is what is written to a buffer.
fn faulty<F: FnMut(&mut Faulty) -> io::Result<()>>(what: &str, full: &[u8], src: &mut Src, ctx: &mut Ctx, mut f: F) -> Verdict {
    if src.chance(1, 3) {
        // One write fails, others would not.
        let at = 1 + src.below((full.len() + 1).min(60));
        let mut w = Faulty { got: vec![], step: 0, interrupt: false, left: None, zero: false, calls: 0, after: 0, once: Some(at), writes: 0, failed: false };
        let how = format!("{} of {} bytes, write number {} fails", what, full.len(), at);
        ctx.show(format!("{}\n{}", ctx.shown.split("\n--").next().unwrap_or(""), format!("-- {}", how)));
        let r = sut(what, BIG, || f(&mut w))?;
        if w.failed {
            ensure!(matches!(r, Err(ref e) if e.kind() == KINDS[at % KINDS.len()]), "{}: {:?}, written {:?}", how, r, String::from_utf8_lossy(&w.got));
            ensure!(full.starts_with(&w.got), "{}: written {:?}", how, String::from_utf8_lossy(&w.got));
            ctx.label("one write fails");
        } else {
            ensure!(r.is_ok() && w.got == full, "{}: {:?}, written {:?}", how, r, String::from_utf8_lossy(&w.got));
        }
        return Ok(());
    }
    for _ in 0..2 {
        let fails = src.chance(2, 3);
        let at = if fails { Some(src.below(full.len() + 2)) } else { None };
        let step = match src.below(3) { 0 => 0, 1 => 1, _ => src.int(1, 9) };
        let mut w = Faulty { got: vec![], step, interrupt: src.chance(1, 3), left: at, zero: src.chance(1, 4), calls: 0, after: 0, once: None, writes: 0, failed: false };
        let how = format!("{} of {} bytes, {} at a time (0: all){}, failing {}", what, full.len(), w.step, if w.interrupt { ", interrupted" } else { "" },
            match at { Some(n) => format!("after {} with {}", n, if w.zero { "no room left".into() } else { format!("{:?}", KINDS[n % KINDS.len()]) }), None => "never".into() });
        ctx.show(format!("{}\n{}", ctx.shown.split("\n--").next().unwrap_or(""), format!("-- {}", how)));
        let r = sut(what, BIG, || f(&mut w))?;
        match at.filter(|&n| n < full.len()) {
            None => {
                ensure!(r.is_ok(), "{}: {:?}", how, r);
                ensure!(w.got == full, "{}: written {:?}", how, String::from_utf8_lossy(&w.got));
                ctx.label("written in pieces");
            }
            Some(n) => {
                let e = match r { Err(e) => e, Ok(()) => return fail(format!("{}: no error is returned, written {:?}", how, String::from_utf8_lossy(&w.got))) };
                let want = if w.zero { io::ErrorKind::WriteZero } else { KINDS[n % KINDS.len()] };
                ensure!(e.kind() == want, "{}: the error returned is {:?}", how, e.kind());
                ensure!(full.starts_with(&w.got), "{}: written {:?}", how, String::from_utf8_lossy(&w.got));
                ctx.label("error of the output");
            }
        }
    }
    Ok(())
}

pub fn c26(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    match src.below(4) {
        0 => {
            let mut items = gen_items(src);
            if src.chance(1, 300) {
                let n = src.magnitude(4_000);
                let name = Arc::new(any_string(src, 5));
                let s = Arc::new(any_string(src, 9));
                for i in 0..n { items.push(Range::empty(0).wrap(if i % 3 == 0 { MetaData::Bool(name.clone(), true) } else { MetaData::String(name.clone(), s.clone()) })); }
                ctx.label("many items");
            }
            ctx.show(if items.len() > 60 { format!("{} items, the first: {:?}, the last: {:?}", items.len(), items[0].data, items[items.len() - 1].data) } else { format!("items:\n  {}", show_items(&items)) });
            let full = sut("json::write()", BIG, || { let mut v: Vec<u8> = vec![]; json::write(&mut v, &items).ok(); v })?;
            faulty("json::write()", &full, src, ctx, |w| json::write(w, &items))?;
            let shown = ctx.shown.clone();
            ctx.eval(items.len() >= 3, key(&[&shown]), || shown);
        }
        1 => {
            let s = any_string(src, 12);
            ctx.show(format!("string: {:?}", s));
            let full = sut("json::write_string()", BIG, || { let mut v: Vec<u8> = vec![]; json::write_string(&mut v, &s).ok(); v })?;
            faulty("json::write_string()", &full, src, ctx, |w| json::write_string(w, &s))?;
            let shown = ctx.shown.clone();
            ctx.eval(s.len() >= 3, key(&[&shown]), || shown);
        }
        k => {
            let text = gen_text(src);
            let bs: Vec<usize> = (0..=text.len()).filter(|&i| text.is_char_boundary(i)).collect();
            let a = src.below(bs.len());
            let b = a + src.below((bs.len() - a).min(4));
            let range = Range::new(bs[a], bs[b] - bs[a]);
            let e = gen_error(src);
            ctx.show(format!("text: {:?}\nrange: {}..{}\nerror: {:?}", text, bs[a], bs[b], e));
            // One handler writes all of it.
            let mut h = ParseErrorHandler::new(&text);
            let msg = k == 3;
            let mut before = String::new();
            if src.bool() {
                // After other errors.
                for _ in 0..src.int(1, 3) {
                    let a = src.below(bs.len());
                    let b = a + src.below((bs.len() - a).min(4));
                    let r = Range::new(bs[a], bs[b] - bs[a]);
                    let e = gen_error(src);
                    let m = src.chance(1, 3);
                    before.push_str(&format!("\nbefore: {}..{}", bs[a], bs[b]));
                    sut("write()", BIG, || { let mut v: Vec<u8> = vec![]; if m { h.write_msg(&mut v, r, "another") } else { h.write(&mut v, r.wrap(e)) }.ok(); })?;
                }
                ctx.label("a handler used again");
            }
            let used = !before.is_empty();
            ctx.show(format!("text: {:?}\nrange: {}..{}\nerror: {:?}{}", text, bs[a], bs[b], e, before));
            let mut write = |w: &mut dyn io::Write| -> io::Result<()> {
                let mut w = w;
                if msg { h.write_msg(&mut w, range, "the message") } else { h.write(&mut w, range.wrap(clone_error(&e))) }
            };
            let full = sut("write()", BIG, || { let mut v: Vec<u8> = vec![]; write(&mut v).ok(); v })?;
            let what = if msg { "write_msg()" } else { "write()" };
            if used {
                let mut new = ParseErrorHandler::new(&text);
                let fresh = sut(what, BIG, || { let mut v: Vec<u8> = vec![]; if msg { new.write_msg(&mut v, range, "the message") } else { new.write(&mut v, range.wrap(clone_error(&e))) }.ok(); v })?;
                ensure!(fresh == full, "{}: a new handler writes {:?}, a used one {:?}", what, String::from_utf8_lossy(&fresh), String::from_utf8_lossy(&full));
            }
            faulty(what, &full, src, ctx, |w| write(w))?;
            let again = sut("write()", BIG, || { let mut v: Vec<u8> = vec![]; write(&mut v).ok(); v })?;
            ensure!(again == full, "{}: first {:?}, then {:?}", what, String::from_utf8_lossy(&full), String::from_utf8_lossy(&again));
            let shown = ctx.shown.clone();
            ctx.eval(text.contains('\n') || !text.is_ascii(), key(&[&shown]), || shown);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C27

/// The error with another debug id.
fn with_id(e: &ParseError, f: &dyn Fn(usize) -> usize) -> ParseError {
    match e {
        ParseError::ExpectedWhitespace(i) => ParseError::ExpectedWhitespace(f(*i)),
        ParseError::ExpectedNewLine(i) => ParseError::ExpectedNewLine(f(*i)),
        ParseError::ExpectedSomething(i) => ParseError::ExpectedSomething(f(*i)),
        ParseError::ExpectedNumber(i) => ParseError::ExpectedNumber(f(*i)),
        ParseError::ParseNumberError(e, i) => ParseError::ParseNumberError(*e, f(*i)),
        ParseError::ExpectedText(i) => ParseError::ExpectedText(f(*i)),
        ParseError::EmptyTextNotAllowed(i) => ParseError::EmptyTextNotAllowed(f(*i)),
        ParseError::ParseStringError(e, i) => ParseError::ParseStringError(*e, f(*i)),
        ParseError::ExpectedTag(t, i) => ParseError::ExpectedTag(t.clone(), f(*i)),
        ParseError::DidNotExpectTag(t, i) => ParseError::DidNotExpectTag(t.clone(), f(*i)),
        ParseError::InvalidRule(m, i) => ParseError::InvalidRule(m, f(*i)),
        e => clone_error(e),
    }
}

fn props_of(r: &mut R) -> Option<&mut Option<String>> {
    match r {
        R::Tag { prop, .. } | R::Until { prop, .. } | R::Text { prop, .. } | R::Num { prop, .. } | R::Ref { prop, .. } => Some(prop),
        _ => None,
    }
}

pub fn c27(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut cfg = Cfg::default();
    cfg.max_nodes = 6;
    cfg.w[11] = 16;
    let mut gen = Gen::new(src, cfg);
    let mut g = gen.grammar();
    let alpha = gen.alpha.clone();
    // Numbered apart from each other.
    for (i, n) in g.nodes.iter_mut().enumerate() { n.id = i + 1; }
    let mut h = g.clone();
    let n = h.nodes.len();
    let mut what: Vec<&str> = vec![];
    let mut ids: HashMap<usize, usize> = (1..=n).map(|i| (i, i)).collect();
    let mut names: HashMap<String, String> = HashMap::new();
    let kinds = src.int(1, 31);
    if kinds & 1 != 0 {
        // Other names, some of them names another node had.
        let mut new: Vec<String> = vec![];
        let permuted = src.chance(1, 3);
        for i in 0..n {
            let s = if permuted { h.nodes[(i + 1) % n].name.clone() } else if src.chance(1, 3) && i > 0 { near(&new[i - 1], src) } else { word(src) };
            let mut s = s;
            while new.contains(&s) { s = format!("{}-{}", s, i); }
            new.push(s);
        }
        let old: Vec<String> = h.nodes.iter().map(|x| x.name.clone()).collect();
        for (i, x) in h.nodes.iter_mut().enumerate() {
            x.name = new[i].clone();
            x.rule.for_each_mut(&mut |r| if let R::Ref { name, .. } = r { if let Some(k) = old.iter().position(|o| o == name) { *name = new[k].clone(); } });
        }
        what.push("other names of nodes");
    }
    if kinds & 2 != 0 {
        let mut used = vec![];
        for x in h.nodes.iter_mut() {
            let mut id = match src.below(4) { 0 => src.int(0, 99), 1 => src.int(0, 99_999), 2 => { let bits = src.int(1, 52); src.int(0, 1 << bits) } _ => n - x.id };
            while used.contains(&id) { id += 1; }
            used.push(id);
            ids.insert(x.id, id);
            x.id = id;
        }
        what.push("other numbers");
    }
    if kinds & 4 != 0 && n > 2 {
        // The last one stays the last one.
        for i in (1..n - 1).rev() { let j = src.below(i + 1); h.nodes.swap(i, j); }
        what.push("another order");
    }
    if kinds & 8 != 0 {
        for k in 0..src.int(1, 3) {
            let at = src.below(h.nodes.len());
            let rule = match src.below(4) {
                0 => refer(&h.nodes[src.below(h.nodes.len())].name),
                1 => R::Seq(vec![tag("unused"), refer(&format!("unused{}", k))]),
                2 => R::Sel(vec![tagp("a", "a"), R::Num { us: false, prop: None }]),
                _ => h.nodes[src.below(h.nodes.len())].rule.clone(),
            };
            h.nodes.insert(at, NodeDef { id: 200_000 + k, name: format!("unused{}", k), rule });
        }
        what.push("definitions that are not used");
    }
    if kinds & 16 != 0 {
        let mut all: Vec<String> = vec![];
        for x in h.nodes.iter_mut() {
            x.rule.for_each_mut(&mut |r| if let Some(Some(p)) = props_of(r) { if !all.contains(p) { all.push(p.clone()); } });
        }
        let swap = src.bool();
        for (i, p) in all.iter().enumerate() {
            let q = if swap { all[(i + 1) % all.len()].clone() } else { format!("{}{}", src.pick(&["é", "\"", "x\ny", "", "日", "a"]), i) };
            names.insert(p.clone(), q);
        }
        for x in h.nodes.iter_mut() {
            x.rule.for_each_mut(&mut |r| if let Some(Some(p)) = props_of(r) { *p = names[p].clone(); });
        }
        what.push("other names of data");
    }
    for w in &what { ctx.label(w); }
    let (a, b) = (Printer::plain().grammar(&g, &[]), Printer::plain().grammar(&h, &[]));
    let shown = format!("grammar:\n{}\nwith {}:\n{}", a, what.join(", "), b);
    ctx.show(shown.clone());
    let (sa, sb) = (compile(&a)?, compile(&b)?);
    let nodes = g.number();
    for _ in 0..6 {
        let set = gen_settings(src);
        let text = text_for(&g, src, &alpha, set.indent as usize, 5);
        ctx.show(format!("{}\ndocument: {:?}\nsettings: {}", shown, text, show_settings(&set)));
        let o = match crate::model::run(&nodes, &text, &set, 60_000) { Ok(o) => o, Err(_) => { ctx.label("discarded: reference evaluation over budget"); continue } };
        let x = lib_parse(&sa, &text, &set, limit_for(&o))?;
        let y = lib_parse(&sb, &text, &set, limit_for(&o))?;
        match (&x.0, &y.0) {
            (Ok(()), Ok(())) => {
                let rename = |n: &Arc<String>| Arc::new(names.get(&**n).cloned().unwrap_or_else(|| n.to_string()));
                let want: Vec<Range<MetaData>> = x.1.iter().map(|i| i.wrap_ref(&rename)).collect();
                ensure!(same(&want, &y.1), "the data is\n  {}\nwith {}\n  {}", show_items(&x.1), what.join(", "), show_items(&y.1));
                ctx.label("accepted");
            }
            (Err(e), Err(f)) => {
                let want = Range::new(e.offset, e.length).wrap(with_id(&e.data, &|i| {
                    // Ids are counted up from 1000 times the number of the node.
                    let node = (i - 1) / 1000;
                    ids.get(&node).map(|k| k * 1000 + (i - node * 1000)).unwrap_or(i)
                }));
                ensure!(want == *f, "the error is {:?}\nwith {} {:?}", e, what.join(", "), f);
                ctx.label("rejected");
            }
            (x, y) => return fail(format!("{:?}\nwith {}: {:?}", x, what.join(", "), y)),
        }
        let s = ctx.shown.clone();
        ctx.eval(o.steps >= 4 && o.stats.refs > 0, key(&[&s]), || s);
    }
    Ok(())
}

trait Renamed { fn wrap_ref(&self, f: &dyn Fn(&Arc<String>) -> Arc<String>) -> Range<MetaData>; }

impl Renamed for Range<MetaData> {
    fn wrap_ref(&self, f: &dyn Fn(&Arc<String>) -> Arc<String>) -> Range<MetaData> {
        let d = match &self.data {
            MetaData::StartNode(n) => MetaData::StartNode(f(n)),
            MetaData::EndNode(n) => MetaData::EndNode(f(n)),
            MetaData::Bool(n, v) => MetaData::Bool(f(n), *v),
            MetaData::F64(n, v) => MetaData::F64(f(n), *v),
            MetaData::String(n, v) => MetaData::String(f(n), v.clone()),
        };
        Range::new(self.offset, self.length).wrap(d)
    }
}
