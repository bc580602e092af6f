//! Generates texts for a grammar: derived from it, then mutated.

use crate::engine::Src;
use crate::gram::*;
use crate::print::spell;

pub struct Derive<'a> {
    pub g: &'a Grammar,
    pub src: &'a mut Src,
    pub alpha: &'a [String],
    pub out: String,
    budget: i64,
    indent: usize,
}

pub const WS: &[&str] = &[" ", "\n", "\t", "  ", "\r\n", "\u{3000}", "\u{a0}", "\n\n", " \n ", "\u{2028}", "\u{85}"];

pub fn number_text(src: &mut Src, us: bool) -> String {
    if let Some(x) = src.known_number(40) { return x.to_string(); }
    let mut o = String::new();
    match src.weighted(&[6, 2, 1]) { 1 => o.push('-'), 2 => o.push('+'), _ => {} }
    let n = src.int(1, 4);
    for i in 0..n {
        o.push((b'0' + src.below(10) as u8) as char);
        if us && i + 1 < n && src.chance(1, 4) { o.push('_'); }
    }
    if src.chance(1, 4) {
        o.push('.');
        for _ in 0..src.int(0, 3) { o.push((b'0' + src.below(10) as u8) as char); }
    }
    if src.chance(1, 6) {
        o.push(if src.bool() { 'e' } else { 'E' });
        match src.below(3) { 1 => o.push('-'), 2 => o.push('+'), _ => {} }
        let big = src.chance(1, 6);
        o.push_str(&src.int(0, if big { 999 } else { 20 }).to_string());
    }
    o
}

pub fn string_text(src: &mut Src, alpha: &[String], min: usize) -> String {
    let n = src.int(min, min + 3);
    let s: String = (0..n).map(|_| src.pick(alpha).clone()).collect();
    if s.is_empty() && min > 0 { return "\"a\"".into(); }
    let mut t = spell(&s, src);
    if src.chance(1, 14) {
        // A malformed escape.
        let bad = *src.pick(&["\\x", "\\u12", "\\u12g4", "\\é", "\\ud800", "\\u00é0"]);
        t.insert_str(1, bad);
    }
    t
}

impl<'a> Derive<'a> {
    pub fn new(g: &'a Grammar, src: &'a mut Src, alpha: &'a [String], indent: usize) -> Derive<'a> {
        Derive { g, src, alpha, out: String::new(), budget: 60, indent }
    }

    pub fn text(mut self) -> String {
        let g = self.g;
        self.rule(&g.nodes[g.nodes.len() - 1].rule);
        self.out
    }

    fn count(&mut self, min: usize) -> usize {
        if self.budget < 10 { return min; }
        if let Some(n) = self.src.known_size(100, 40) { return n.max(min); }
        min + self.src.weighted(&[3, 4, 3, 2, 1])
    }

    fn rule(&mut self, r: &R) {
        self.budget -= 1;
        if self.budget < -60 { return; }
        match r {
            R::Ws(opt) => if !opt || self.src.bool() { let w = *self.src.pick(WS); self.out.push_str(w); },
            R::Tag { text, not, .. } => if !not { self.out.push_str(text) },
            R::Until { ws, any, opt, .. } => {
                let n = self.count(if *opt { 0 } else { 1 });
                for _ in 0..n {
                    let s = if self.src.chance(1, 4) { "z".to_string() } else { self.src.pick(self.alpha).clone() };
                    for c in s.chars() {
                        if any.contains(c) || (*ws && c.is_whitespace()) { continue; }
                        self.out.push(c);
                    }
                }
            }
            R::Text { empty, .. } => {
                let t = string_text(self.src, self.alpha, if *empty { 0 } else { 1 });
                self.out.push_str(&t);
            }
            R::Num { us, .. } => { let t = number_text(self.src, *us); self.out.push_str(&t); }
            R::Sel(v) => if !v.is_empty() {
                let i = if self.budget > 0 { self.src.below(v.len()) } else {
                    // The smallest alternative ends soonest.
                    (0..v.len()).min_by_key(|&i| v[i].size() + if v[i].any(|r| matches!(r, R::Ref { .. })) { 100 } else { 0 }).unwrap()
                };
                self.rule(&v[i]);
            },
            R::Seq(v) => for r in v { self.rule(r); },
            R::Sep { by, rule, opt, trail } => {
                let n = self.count(if *opt { 0 } else { 1 });
                for i in 0..n {
                    if i > 0 { self.rule(by); }
                    self.rule(rule);
                }
                if n > 0 && *trail && self.src.chance(1, 3) { self.rule(by); }
            }
            R::Rep { rule, opt } => {
                let n = self.count(if *opt { 0 } else { 1 });
                for _ in 0..n { self.rule(rule); }
            }
            R::Lines { rule, indent } => {
                let n = self.count(0);
                let old = self.indent;
                if *indent && self.src.chance(1, 3) { self.indent += self.src.int(1, 4); }
                for i in 0..n {
                    if i > 0 || self.src.chance(1, 2) {
                        if self.src.chance(1, 6) { self.out.push_str(" \n"); }
                        self.out.push('\n');
                    }
                    if *indent {
                        let mut k = self.indent;
                        if self.src.chance(1, 10) { k += 1; }
                        while k > 0 {
                            if k >= 4 && self.src.chance(1, 5) { self.out.push('\t'); k -= 4; }
                            else { self.out.push(' '); k -= 1; }
                        }
                    } else if self.src.chance(1, 6) { self.out.push(' '); }
                    self.indent += 1;
                    self.rule(rule);
                    self.indent -= 1;
                }
                self.indent = old;
                if n > 0 && self.src.chance(1, 4) { self.out.push('\n'); }
            }
            R::Ref { name, .. } => {
                if let Some(i) = self.g.resolve(name) {
                    let g = self.g;
                    if self.budget > -20 { self.rule(&g.nodes[i].rule); }
                }
            }
            R::Opt(r) => if self.budget > 0 && self.src.bool() { self.rule(r) },
            R::Not(_) => {}
        }
    }
}

fn boundary(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) { i -= 1; }
    i
}

/// One random edit.
pub fn mutate(s: &mut String, src: &mut Src, alpha: &[String]) {
    let i = boundary(s, src.below(s.len() + 1));
    match src.weighted(&[4, 4, 2, 2, 2, 1, 1, 2]) {
        0 => { if i < s.len() { s.remove(i); } }
        1 => { let p = src.pick(alpha).clone(); s.insert_str(i, &p); }
        2 => { if let Some(w) = src.known(4) { s.insert_str(i, w); return; }
               let w = *src.pick(WS); s.insert_str(i, w); }
        3 => s.truncate(i),
        4 => { let j = boundary(s, src.below(s.len() + 1)); let (a, b) = (i.min(j), i.max(j));
               let t = s[a..b].to_string(); s.insert_str(b, &t); }
        5 => { let p = src.pick(alpha).clone(); s.push_str(&p); }
        7 => { if i < s.len() {
            // Another character, which is as long in many cases.
            let old = s.remove(i);
            let c = if src.bool() { src.pick(alpha).chars().next().unwrap_or('x') } else { match old { 'é' => 'è', '日' => '本', 'x' => 'y', _ => 'x' } };
            s.insert(i, c);
        } }
        _ => { let p = *src.pick(&["1", "\"", "é", "x", "\\", "\"a\"", "\n", "\0"]); s.insert_str(i, p); }
    }
}

/// A text for the grammar; `mutations`: chance out of 10 of being edited.
pub fn text_for(g: &Grammar, src: &mut Src, alpha: &[String], indent: usize, mutations: u64) -> String {
    if src.chance(1, 14) {
        let n = src.int(0, 8);
        return (0..n).map(|_| src.pick(alpha).clone()).collect();
    }
    let mut t = Derive::new(g, src, alpha, indent).text();
    if t.len() > 600 { let i = boundary(&t, 600); t.truncate(i); }
    if src.chance(mutations, 10) {
        for _ in 0..src.int(1, 3) { mutate(&mut t, src, alpha); }
    }
    t
}
