//! Grammars: syntax tree, well-formed-by-construction generator, numbering, conversion to rules.

use crate::engine::Src;
use piston_meta::meta_rules::*;
use piston_meta::{Rule, Syntax};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ws(bool),
    Tag { text: String, not: bool, inv: bool, prop: Option<String> },
    /// Read until any character (`ws`: or white space).
    Until { ws: bool, any: String, opt: bool, prop: Option<String> },
    Text { empty: bool, prop: Option<String> },
    Num { us: bool, prop: Option<String> },
    Sel(Vec<R>),
    Seq(Vec<R>),
    Sep { by: Box<R>, rule: Box<R>, opt: bool, trail: bool },
    Rep { rule: Box<R>, opt: bool },
    Lines { rule: Box<R>, indent: bool },
    Ref { name: String, prop: Option<String> },
    Opt(Box<R>),
    Not(Box<R>),
}

pub fn tag(s: &str) -> R { R::Tag { text: s.into(), not: false, inv: false, prop: None } }
pub fn tagp(s: &str, p: &str) -> R { R::Tag { text: s.into(), not: false, inv: false, prop: Some(p.into()) } }
pub fn nothing() -> R { tag("") }
/// Always fails.
pub fn never() -> R { R::Tag { text: String::new(), not: true, inv: false, prop: None } }
pub fn refer(n: &str) -> R { R::Ref { name: n.into(), prop: None } }

#[derive(Clone, Debug, PartialEq)]
pub struct NodeDef { pub id: usize, pub name: String, pub rule: R }

#[derive(Clone, Debug, PartialEq)]
pub struct Grammar { pub nodes: Vec<NodeDef> }

// ------------------------------------------------------------------ numbered form

#[derive(Clone, Debug)]
pub struct M { pub id: usize, pub k: K }

#[derive(Clone, Debug)]
pub enum K {
    Ws(bool),
    Tag { text: String, not: bool, inv: bool, prop: Option<String> },
    Until { ws: bool, any: String, opt: bool, prop: Option<String> },
    Text { empty: bool, prop: Option<String> },
    Num { us: bool, prop: Option<String> },
    Sel(Vec<M>),
    Seq(Vec<M>),
    Sep { by: Box<M>, rule: Box<M>, opt: bool, trail: bool },
    Rep { rule: Box<M>, opt: bool },
    Lines { rule: Box<M>, indent: bool },
    Ref { name: String, index: Option<usize>, prop: Option<String> },
    Opt(Box<M>),
    Not(Box<M>),
}

impl Grammar {
    pub fn rename(&mut self, i: usize, to: &str) {
        let old = std::mem::replace(&mut self.nodes[i].name, to.to_string());
        for n in &mut self.nodes { n.rule.for_each_mut(&mut |r| if let R::Ref { name, .. } = r { if *name == old { *name = to.to_string(); } }); }
    }

    pub fn resolve(&self, name: &str) -> Option<usize> {
        self.nodes.iter().position(|n| n.name == name)
    }

    /// Gives rules their ids: counted up from `1000 * id`, inner rules before outer.
    pub fn number(&self) -> Vec<M> {
        self.nodes.iter().map(|n| { let mut c = n.id * 1000; self.num(&n.rule, &mut c) }).collect()
    }

    fn num(&self, r: &R, c: &mut usize) -> M {
        let k = match r {
            R::Ws(o) => K::Ws(*o),
            R::Tag { text, not, inv, prop } => K::Tag { text: text.clone(), not: *not, inv: *inv, prop: prop.clone() },
            R::Until { ws, any, opt, prop } => K::Until { ws: *ws, any: any.clone(), opt: *opt, prop: prop.clone() },
            R::Text { empty, prop } => K::Text { empty: *empty, prop: prop.clone() },
            R::Num { us, prop } => K::Num { us: *us, prop: prop.clone() },
            R::Sel(v) => K::Sel(v.iter().map(|r| self.num(r, c)).collect()),
            R::Seq(v) => K::Seq(v.iter().map(|r| self.num(r, c)).collect()),
            R::Sep { by, rule, opt, trail } => {
                let by = Box::new(self.num(by, c));
                let rule = Box::new(self.num(rule, c));
                K::Sep { by, rule, opt: *opt, trail: *trail }
            }
            R::Rep { rule, opt } => K::Rep { rule: Box::new(self.num(rule, c)), opt: *opt },
            R::Lines { rule, indent } => K::Lines { rule: Box::new(self.num(rule, c)), indent: *indent },
            R::Ref { name, prop } => K::Ref { name: name.clone(), index: self.resolve(name), prop: prop.clone() },
            R::Opt(r) => K::Opt(Box::new(self.num(r, c))),
            R::Not(r) => K::Not(Box::new(self.num(r, c))),
        };
        *c += 1;
        M { id: *c, k }
    }

    /// Builds the syntax rule by rule, as a program would.
    pub fn build(&self) -> Syntax {
        fn strip(m: &mut M) {
            match &mut m.k {
                K::Ref { index, .. } => *index = None,
                K::Sel(v) | K::Seq(v) => for m in v { strip(m) },
                K::Sep { by, rule, .. } => { strip(by); strip(rule); }
                K::Rep { rule, .. } | K::Lines { rule, .. } => strip(rule),
                K::Opt(r) | K::Not(r) => strip(r),
                _ => {}
            }
        }
        let mut s = Syntax::new();
        for (n, mut m) in self.nodes.iter().zip(self.number()) {
            strip(&mut m);
            s.push(Arc::new(n.name.clone()), to_rule(&m));
        }
        update_refs(&mut s);
        s
    }

    /// Replaces a rule by a choice of nothing, which always fails, or by a sequence of nothing.
    pub fn hollow(&mut self, src: &mut Src) {
        let at = src.below(self.size());
        let fail = src.bool();
        let r = self.nth_mut(at).unwrap();
        match r {
            // What need not consume anything.
            R::Ws(true) | R::Tag { not: true, .. } | R::Not(_) | R::Opt(_) if !fail => *r = R::Seq(vec![]),
            _ => *r = R::Sel(vec![]),
        }
    }

    /// The syntax this grammar spells, not optimized.
    pub fn to_syntax(&self) -> Syntax {
        let rules = self.number().iter().map(to_rule).collect();
        Syntax { rules, names: self.nodes.iter().map(|n| Arc::new(n.name.clone())).collect() }
    }
}

fn arc(p: &Option<String>) -> Option<Arc<String>> { p.as_ref().map(|p| Arc::new(p.clone())) }

pub fn to_rule(m: &M) -> Rule {
    let debug_id = m.id;
    match &m.k {
        K::Ws(optional) => Rule::Whitespace(Whitespace { optional: *optional, debug_id }),
        K::Tag { text, not, inv, prop } => Rule::Tag(Tag {
            text: Arc::new(text.clone()), not: *not, inverted: *inv, property: arc(prop), debug_id }),
        K::Until { ws: false, any, opt, prop } => Rule::UntilAny(UntilAny {
            any_characters: Arc::new(any.clone()), optional: *opt, property: arc(prop), debug_id }),
        K::Until { ws: true, any, opt, prop } => Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace {
            any_characters: Arc::new(any.clone()), optional: *opt, property: arc(prop), debug_id }),
        K::Text { empty, prop } => Rule::Text(Text { allow_empty: *empty, property: arc(prop), debug_id }),
        K::Num { us, prop } => Rule::Number(Number { allow_underscore: *us, property: arc(prop), debug_id }),
        K::Sel(v) => Rule::Select(Select { args: v.iter().map(to_rule).collect(), debug_id }),
        K::Seq(v) => Rule::Sequence(Sequence { args: v.iter().map(to_rule).collect(), debug_id }),
        K::Sep { by, rule, opt, trail } => Rule::SeparateBy(Box::new(SeparateBy {
            by: to_rule(by), rule: to_rule(rule), optional: *opt, allow_trail: *trail, debug_id })),
        K::Rep { rule, opt } => Rule::Repeat(Box::new(Repeat { rule: to_rule(rule), optional: *opt, debug_id })),
        K::Lines { rule, indent } => Rule::Lines(Box::new(Lines { rule: to_rule(rule), indent: *indent, debug_id })),
        K::Ref { name, index, prop } => Rule::Node(Node {
            name: Arc::new(name.clone()), index: *index, property: arc(prop), debug_id }),
        K::Opt(r) => Rule::Optional(Box::new(Optional { rule: to_rule(r), debug_id })),
        K::Not(r) => Rule::Not(Box::new(Not { rule: to_rule(r), debug_id })),
    }
}

// ------------------------------------------------------------------ structure helpers

impl R {
    pub fn children(&self) -> Vec<&R> {
        match self {
            R::Sel(v) | R::Seq(v) => v.iter().collect(),
            R::Sep { by, rule, .. } => vec![by, rule],
            R::Rep { rule, .. } | R::Lines { rule, .. } => vec![rule],
            R::Opt(r) | R::Not(r) => vec![r],
            _ => vec![],
        }
    }

    pub fn children_mut(&mut self) -> Vec<&mut R> {
        match self {
            R::Sel(v) | R::Seq(v) => v.iter_mut().collect(),
            R::Sep { by, rule, .. } => vec![by, rule],
            R::Rep { rule, .. } | R::Lines { rule, .. } => vec![rule],
            R::Opt(r) | R::Not(r) => vec![r],
            _ => vec![],
        }
    }

    pub fn size(&self) -> usize { 1 + self.children().iter().map(|r| r.size()).sum::<usize>() }

    pub fn any<F: Fn(&R) -> bool + Copy>(&self, f: F) -> bool {
        f(self) || self.children().iter().any(|r| r.any(f))
    }

    /// The n-th rule in pre-order.
    pub fn nth_mut(&mut self, n: &mut usize) -> Option<&mut R> {
        if *n == 0 { return Some(self); }
        *n -= 1;
        for c in self.children_mut() {
            let s = c.size();
            if *n < s { return c.nth_mut(n); }
            *n -= s;
        }
        None
    }

    pub fn for_each_mut<F: FnMut(&mut R)>(&mut self, f: &mut F) {
        f(self);
        for c in self.children_mut() { c.for_each_mut(f); }
    }
}

impl M {
    pub fn children(&self) -> Vec<&M> {
        match &self.k {
            K::Sel(v) | K::Seq(v) => v.iter().collect(),
            K::Sep { by, rule, .. } => vec![by, rule],
            K::Rep { rule, .. } | K::Lines { rule, .. } => vec![rule],
            K::Opt(r) | K::Not(r) => vec![r],
            _ => vec![],
        }
    }

    /// This rule and all inside it, in pre-order.
    pub fn all<'a>(&'a self, out: &mut Vec<&'a M>) {
        out.push(self);
        for c in self.children() { c.all(out); }
    }
}

impl Grammar {
    pub fn size(&self) -> usize { self.nodes.iter().map(|n| n.rule.size()).sum() }
    pub fn any<F: Fn(&R) -> bool + Copy>(&self, f: F) -> bool { self.nodes.iter().any(|n| n.rule.any(f)) }
    /// The n-th rule of the whole grammar.
    pub fn nth_mut(&mut self, mut n: usize) -> Option<&mut R> {
        for d in &mut self.nodes {
            let s = d.rule.size();
            if n < s { return d.rule.nth_mut(&mut n); }
            n -= s;
        }
        None
    }
}

/// Makes a grammar large in one respect.
pub fn enlarge(g: &mut Grammar, src: &mut Src) -> &'static str {
    use crate::engine::{stretch, Cheap};
    let fresh = |i: usize| format!("more{}", i);
    match src.below(5) {
        0 => {
            // Many nodes, in front or behind, which refer to each other.
            let n = src.magnitude(250);
            let front = src.bool();
            let mut c = Cheap::new(src);
            let mut more = vec![];
            for i in 0..n {
                let mut v = vec![tag(&format!("t{}", c.below(n)))];
                if i > 0 { v.push(R::Ref { name: fresh(c.below(i)), prop: Some(format!("p{}", c.below(n))) }); }
                if i + 1 < n { v.push(R::Opt(Box::new(refer(&fresh(i + 1))))); }
                more.push(NodeDef { id: 100 + i, name: fresh(i), rule: R::Seq(v) });
            }
            if front { more.append(&mut g.nodes); g.nodes = more; } else {
                // The last node stays the one a document is read with.
                let last = g.nodes.pop().unwrap();
                g.nodes.append(&mut more);
                g.nodes.push(last);
            }
            "many nodes"
        }
        1 => {
            let n = src.magnitude(1_600) + 1;
            let mut c = Cheap::new(src);
            let v: Vec<R> = (0..n).map(|i| match c.below(5) {
                4 => if i % 2 == 0 { R::Seq(vec![tag("w"), tag("v")]) } else { R::Sel(vec![tag("w"), tag("v")]) },
                0 => tagp(&format!("{}x", i), "p"), 1 => tag("y"), 2 => R::Num { us: false, prop: Some(format!("n{}", i)) }, _ => R::Opt(Box::new(tag("z"))),
            }).collect();
            let at = src.below(g.size());
            let r = g.nth_mut(at).unwrap();
            let old = r.clone();
            *r = if src.bool() { R::Seq(vec![old, R::Opt(Box::new(R::Seq(v)))]) } else { R::Sel(vec![old, R::Sel(v)]) };
            "rule of many rules"
        }
        2 => {
            let (mut t, mut u) = ("a".to_string(), "b".to_string());
            stretch(&mut t, src, 1, 3_000);
            stretch(&mut u, src, 1, 1_000);
            let at = src.below(g.size());
            let r = g.nth_mut(at).unwrap();
            let old = r.clone();
            *r = R::Sel(vec![old, R::Seq(vec![tagp(&t, &u), R::Until { ws: false, any: u.clone(), opt: true, prop: Some(t.clone()) }])]);
            "long literals"
        }
        3 => {
            let n = src.magnitude(120);
            let at = src.below(g.size());
            let kind = src.below(4);
            let r = g.nth_mut(at).unwrap();
            for _ in 0..n {
                let old = std::mem::replace(r, nothing());
                *r = match kind { 0 => R::Seq(vec![old]), 1 => R::Sel(vec![old, never()]), 2 => R::Opt(Box::new(R::Seq(vec![tag("q"), old]))), _ => R::Seq(vec![tag("("), R::Opt(Box::new(old)), tag(")")]) };
            }
            "nested deeply"
        }
        _ => {
            let mut t = "m".to_string();
            stretch(&mut t, src, 1, 2_000);
            let t = t.replace(|c: char| c.is_whitespace(), "w");
            let i = src.below(g.nodes.len());
            g.rename(i, &t);
            "long name"
        }
    }
}

// ------------------------------------------------------------------ generator

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_nodes: usize,
    pub depth: usize,
    pub width: usize,
    /// Weights: ws, tag, not-tag, until, text, num, sel, seq, sep, rep, lines, ref, opt, not
    pub w: [u32; 14],
    pub indent: bool,
    pub odd_names: bool,
    pub props: u64,
    /// Allows an inner negative lookahead of a plain tag (cannot be spelled in the meta language).
    pub not_tag: bool,
    /// Empty literals, which can only be spelled by reference.
    pub empties: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            max_nodes: 4, depth: 4, width: 4,
            w: [3, 20, 2, 6, 3, 3, 10, 16, 4, 5, 4, 9, 6, 3],
            indent: true, odd_names: false, props: 50, not_tag: false, empties: true,
        }
    }
}

/// Pieces of literals. Many share a prefix or a first byte.
pub const POOL: &[&str] = &[
    "a", "b", "ab", "c", "aa", "ba", "abc", ",", ";", " ", "\n", "é", "è", "日", "本", "日本", "éa",
    "1", "x", "-", "\u{3000}", "\t", "\"", "(", ")", "\\", "A", "e", ".", "\u{1F600}", "\u{1F601}",
    "true", "\u{a0}", "\u{85}", "\r\n", "_", "//", "0", "=",
];

pub const PROPS: &[&str] = &["p", "q", "r", "a b", "é", "日本", "x\"y", "\\", "n\nl", "id", ""];

pub struct Gen<'a> {
    pub src: &'a mut Src,
    pub cfg: Cfg,
    pub alpha: Vec<String>,
    names: Vec<String>,
    nonempty: Vec<bool>,
    /// The weights to use below the outermost rule.
    top: Option<[u32; 14]>,
}

pub fn alphabet(src: &mut Src) -> Vec<String> {
    let n = src.int(2, 6);
    let odd = src.weighted(&[3, 3, 2]);
    let m = [8, 21, POOL.len()][odd];
    let mut v: Vec<String> = (0..n).map(|_| src.pick(&POOL[..m]).to_string()).collect();
    if let Some(w) = src.known(12) { v.push(w.to_string()); }
    // A longer literal, and one that differs from it late.
    if src.chance(1, 20) {
        let mut t: String = (0..src.int(2, 40)).map(|_| src.pick(&v).clone()).collect();
        if src.bool() {
            let mut u = t.clone();
            u.pop();
            u.push_str(*src.pick(POOL));
            v.push(u);
        }
        if src.bool() { t.push('z'); }
        v.push(t);
    }
    v
}

const NAME_POOL: &[&str] = &["a", "b", "doc", "n1", "x-y", "é", "日本", "a=b", "=", "1x", "7", "a/b", "$", "#", "+", "a'", "<>", "\\", "w", "t", "A_B", "//c"];

/// Names as one would choose them.
const WORDS: &[&str] = &["expression", "item", "Item", "statement_list", "multi-line-comment", "x", "value1", "rule", "node", "n10", "abc", "éclair", "日本語", "string", "_private", "a.b", "name0001", "the_name_of_a_rule_that_is_rather_long"];

pub fn word(src: &mut Src) -> String {
    if let Some(w) = src.known_name(5) { return w; }
    src.pick(WORDS).replace('.', "").trim_start_matches('_').to_string()
}

/// A name much like another, but different.
pub fn near(name: &str, src: &mut Src) -> String {
    let n = name.chars().count();
    let mut cs: Vec<char> = name.chars().collect();
    match src.below(14) {
        0 => cs.push((b'0' + src.below(10) as u8) as char),
        1 => { cs.pop(); }
        2 => for c in cs.iter_mut() { *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } },
        3 => cs[0] = if cs[0].is_ascii_lowercase() { cs[0].to_ascii_uppercase() } else { cs[0].to_ascii_lowercase() },
        4 => cs.push('_'),
        5 => { let i = src.below(n); cs[i] = if cs[i] == 'q' { 'r' } else { 'q' }; }
        6 => { cs.remove(src.below(n)); }
        7 => { let i = src.below(n + 1); cs.insert(i, *src.pick(&['a', '-', '_', '0', 'é', '\u{301}', '\u{200b}', '\u{feff}'])); }
        8 => for c in cs.iter_mut() { *c = match *c { '_' => '-', '-' => '_', c => c } },
        9 => { let mut t = cs.clone(); cs.append(&mut t); }
        10 => if n > 1 { let i = src.below(n - 1); cs.swap(i, i + 1); },
        11 => cs.truncate(src.int(1, n)),
        12 => cs.reverse(),
        _ => cs = name.replace('é', "e\u{301}").chars().collect(),
    }
    let s: String = cs.into_iter().collect();
    // Names that would be read as something else.
    if s.is_empty() || s == name || s.starts_with('_') || s.starts_with('/') || s.starts_with('=') { format!("{}2", name) } else { s }
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src, cfg: Cfg) -> Gen<'a> {
        let alpha = alphabet(src);
        Gen { src, cfg, alpha, names: vec![], nonempty: vec![], top: None }
    }

    pub fn lit(&mut self) -> String {
        let mut s = self.src.pick(&self.alpha).clone();
        if self.src.chance(1, 4) {
            let t = self.src.pick(&self.alpha).clone();
            s.push_str(&t);
        }
        s
    }

    /// The number of rules in a choice or sequence.
    fn wide(&mut self) -> usize {
        let w = self.cfg.width;
        if let Some(n) = self.src.known_size(200, 40) { return n.max(1); }
        if self.src.chance(1, 25) { self.src.int(1, 3 * w) } else { self.src.int(1, w) }
    }

    fn prop(&mut self) -> Option<String> {
        if self.src.chance(self.cfg.props, 100) {
            if let Some(w) = self.src.known(40) { return Some(w.to_string()); }
            let m = if self.src.chance(1, 5) { PROPS.len() } else { 4 };
            Some(self.src.pick(&PROPS[..m]).to_string())
        } else { None }
    }

    fn chars(&mut self) -> String {
        let n = self.src.weighted(&[6, 4, 2, 1]);
        let n = if n == 3 { 0 } else { n + 1 };
        (0..n).map(|_| {
            let s = self.src.pick(&self.alpha).clone();
            let c: Vec<char> = s.chars().collect();
            *self.src.pick(&c)
        }).collect()
    }

    /// Whether success of a rule always consumes something.
    pub fn consumes(&self, r: &R) -> bool {
        match r {
            R::Ws(opt) => !opt,
            R::Tag { text, not, .. } => !not && !text.is_empty(),
            R::Until { opt, .. } => !opt,
            R::Text { .. } | R::Num { .. } => true,
            R::Sel(v) => v.iter().all(|r| self.consumes(r)),
            R::Seq(v) => v.iter().any(|r| self.consumes(r)),
            R::Sep { rule, opt, .. } => !opt && self.consumes(rule),
            R::Rep { rule, opt } => !opt && self.consumes(rule),
            R::Lines { .. } | R::Opt(_) | R::Not(_) => false,
            R::Ref { name, .. } => self.names.iter().position(|n| n == name)
                .and_then(|i| self.nonempty.get(i).cloned()).unwrap_or(false),
        }
    }

    pub fn grammar(&mut self) -> Grammar {
        let n = self.src.int(1, self.cfg.max_nodes);
        for i in 0..n {
            let name = if self.cfg.odd_names && self.src.chance(1, 2) {
                let base = match self.src.below(6) {
                    0 => word(self.src),
                    1 if i > 0 => { let last = self.names[i - 1].clone(); near(&last, self.src) }
                    _ => self.src.pick(NAME_POOL).to_string(),
                };
                if self.names.contains(&base) { format!("{}{}", base, i) } else { base }
            } else { format!("n{}", i) };
            self.names.push(name);
        }
        let mut nodes = vec![];
        for i in 0..n {
            // The node used to read the document is the last one.
            let depth = self.cfg.depth;
            let rule = if i + 1 == n && self.src.chance(4, 5) {
                // Not just a single literal.
                let old = self.cfg.w;
                for k in 0..6 { self.cfg.w[k] = 0; }
                self.top = Some(old);
                self.rule(i, depth, false, false)
            } else { self.rule(i, depth, false, false) };
            let ne = self.consumes(&rule);
            self.nonempty.push(ne);
            let id = if let Some(n) = self.src.known_size(60, 1 << 40) { n } else if self.cfg.odd_names {
                match self.src.below(6) { 0 => i, 1 => self.src.int(0, 9999), 2 => i + 1, 4 => { let bits = self.src.int(1, 52); self.src.int(0, 1 << bits) } 3 => *self.src.pick(&[32768, 65536, 70000, 1_000_000, 16_777_217, 4_294_967_296, 900_719_925_474_099]), _ => 1 }
            } else { i + 1 };
            nodes.push(NodeDef { id, name: self.names[i].clone(), rule });
        }
        Grammar { nodes }
    }

    /// `consumed`: something has been consumed since the node started, so that
    /// any node may be referred to without left recursion.
    /// `ne`: the rule must consume something.
    pub fn rule(&mut self, node: usize, depth: usize, consumed: bool, ne: bool) -> R {
        let mut w = self.cfg.w;
        if let Some(old) = self.top.take() { self.cfg.w = old; }
        if depth == 0 { for i in [6, 7, 8, 9, 10, 12, 13] { w[i] = 0; } }
        if ne { for i in [2, 10, 12, 13] { w[i] = 0; } }
        // A tag is the simplest choice.
        w.swap(0, 1);
        let mut k = self.src.weighted(&w);
        if k < 2 { k = 1 - k; }
        let d = depth.saturating_sub(1);
        match k {
            0 => R::Ws(!ne && self.src.bool()),
            1 => {
                let text = if !ne && self.cfg.empties && self.src.chance(1, 25) { String::new() } else { self.lit() };
                let prop = self.prop();
                let inv = prop.is_some() && self.src.chance(1, 4);
                R::Tag { text, not: false, inv, prop }
            }
            2 => {
                let text = self.lit();
                let prop = self.prop();
                let inv = prop.is_some() && self.src.chance(1, 4);
                R::Tag { text, not: true, inv, prop }
            }
            3 => R::Until { ws: self.src.bool(), any: self.chars(), opt: !ne && self.src.bool(), prop: self.prop() },
            4 => R::Text { empty: self.src.bool(), prop: self.prop() },
            5 => R::Num { us: self.src.bool(), prop: self.prop() },
            6 => {
                let n = self.wide();
                R::Sel((0..n).map(|_| self.rule(node, d, consumed, ne)).collect())
            }
            7 => {
                let n = self.wide();
                let at = if ne { self.src.below(n) } else { n };
                let mut c = consumed;
                let mut v = vec![];
                for i in 0..n {
                    let r = self.rule(node, d, c, i == at);
                    c |= self.consumes(&r);
                    v.push(r);
                }
                R::Seq(v)
            }
            8 => {
                let opt = !ne && self.src.bool();
                let trail = self.src.bool();
                let rule = self.rule(node, d, consumed, ne);
                let rc = self.consumes(&rule);
                let by = self.rule(node, d.min(1), consumed || rc, !rc);
                R::Sep { by: Box::new(by), rule: Box::new(rule), opt, trail }
            }
            9 => R::Rep { opt: !ne && self.src.bool(), rule: Box::new(self.rule(node, d, consumed, true)) },
            10 => R::Lines { indent: self.cfg.indent && self.src.bool(), rule: Box::new(self.rule(node, d, consumed, false)) },
            11 => {
                let all = self.names.len();
                let m = if ne { self.nonempty.len().min(node) } else if consumed { all } else { node };
                let mut cand: Vec<usize> = (0..m).collect();
                if ne { cand.retain(|&i| self.nonempty[i]); }
                if cand.is_empty() {
                    return R::Tag { text: self.lit(), not: false, inv: false, prop: self.prop() };
                }
                // The latest node is the most interesting.
                let i = cand[cand.len() - 1 - self.src.below(cand.len())];
                R::Ref { name: self.names[i].clone(), prop: self.prop() }
            }
            12 => R::Opt(Box::new(self.rule(node, d, consumed, false))),
            _ => {
                let r = self.rule(node, d, consumed, false);
                match r {
                    R::Tag { not: false, .. } if !self.cfg.not_tag => R::Not(Box::new(R::Seq(vec![r]))),
                    r => R::Not(Box::new(r)),
                }
            }
        }
    }
}
