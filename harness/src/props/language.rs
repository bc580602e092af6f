//! C06-C09, C23: the meta language.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gram::*;
use crate::model::{same, Settings};
use crate::print::*;
use crate::textgen::*;
use piston_meta::*;

pub fn asset(name: &str) -> String {
    std::fs::read_to_string(format!("/repo/assets/{}", name)).unwrap()
}

fn odd_cfg(src: &mut Src) -> Cfg {
    let mut c = Cfg::default();
    c.odd_names = src.chance(2, 3);
    c.props = 60;
    match src.weighted(&[4, 2, 2]) {
        1 => { c.depth = 6; c.width = 2; }
        2 => { c.w = [5, 8, 5, 8, 6, 6, 6, 6, 8, 8, 8, 8, 8, 8]; }
        _ => {}
    }
    c
}

/// Any grammar that can be spelled, well formed for parsing or not.
fn gen_grammar(src: &mut Src) -> Grammar {
    let cfg = odd_cfg(src);
    let mut g = Gen::new(src, cfg).grammar();
    if src.chance(1, 700) { enlarge(&mut g, src); }
    g
}

fn show_rules(s: &Syntax) -> String {
    s.names.iter().zip(&s.rules).map(|(n, r)| format!("{} = {:?}", n, r)).collect::<Vec<_>>().join("\n")
}

pub fn equal_syntax(what: &str, got: &Syntax, expected: &Syntax) -> Verdict {
    if got == expected && got.names == expected.names { return Ok(()); }
    fail(format!("{}\ngot:\n{}\nexpected:\n{}", what, show_rules(got), show_rules(expected)))
}

pub fn c06(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let g = gen_grammar(src);
    let styled = src.bool();
    let text = if styled { Printer::styled(src).grammar(&g, &[]) } else { Printer::plain().grammar(&g, &[]) };
    ctx.show(format!("grammar text:\n{}", text));
    label_grammar(&g, ctx);
    if g.size() > 200 { ctx.label("grammar of more than 200 rules"); }
    ctx.label(if styled { "random layout" } else { "plain layout" });
    let expected = g.to_syntax();
    equal_syntax("the rules read differ from those written", &convert_text(&text)?, &expected)?;
    let opt = sut("optimize()", BIG, || expected.clone().optimize())?;
    equal_syntax("syntax() differs from the optimized rules", &compile(&text)?, &opt)?;
    let shown = ctx.shown.clone();
    ctx.eval(g.size() >= 4, key(&[&text]), || shown);
    Ok(())
}

pub fn c07(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let g = gen_grammar(src);
    let plain = Printer::plain().grammar(&g, &[]);
    let a = compile(&plain)?;
    let raw = convert_text(&plain)?;
    for _ in 0..2 {
        let (text, refs, comments) = {
            let mut p = Printer::styled(src);
            let t = p.grammar(&g, &[]);
            (t, p.refs_used, p.comments)
        };
        ctx.show(format!("plain:\n{}\nrewritten:\n{}", plain, text));
        equal_syntax("the rewritten grammar has other rules", &convert_text(&text)?, &raw)?;
        equal_syntax("the rewritten grammar compiles to another syntax", &compile(&text)?, &a)?;
        if refs > 0 { ctx.label("string references"); }
        if comments > 0 { ctx.label("comments"); }
        let shown = ctx.shown.clone();
        ctx.eval(refs > 0 || comments > 0, key(&[&text]), || shown);
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

thread_local! {
    static SELF: (Syntax, Syntax) = {
        let s = asset("self-syntax.txt");
        let raw = convert_text(&s).unwrap_or_else(|_| Syntax::new());
        let opt = raw.clone().optimize();
        (raw, opt)
    };
    static BUILT_IN: Syntax = bootstrap::rules().optimize();
}

/// Pieces of grammar text.
pub const SOUP: &[&str] = &[
    "\n", " ", "1", "2", " = ", "a", "b", "_", "_s", ": ", "\"x\"", "\"\"", "\"\\u0041\"", "[", "]", "{", "}", "(", ")",
    ".", "..", "...", ".w", "?", "!", ".t", ".$", ".$_", ".l(", ".l+(", ".r?(", ".r!(", ".s?(", ".s!.(", ":", ":!",
    "//", "/*", "*/", "/", "*", "é", "\u{3000}", "\t", "\r", "\"", "\\", "+", "-", "1 a = \"b\"\n", "_s: \"t\"\n", "0.5", "1e9", "_1",
    "2 b = .l(a)\n", "-1 c = [.w! .t?]\n",
];

pub fn soup(src: &mut Src) -> String {
    let n = src.int(1, 14);
    let mut opens = 0;
    (0..n).map(|_| {
        let p = *src.pick(SOUP);
        // Each unclosed comment doubles the time to reject the text.
        if p == "/*" { opens += 1; if opens > 6 { return "*/"; } }
        p
    }).collect()
}

/// A text offered as grammar: valid, nearly valid, or not at all.
pub fn grammar_text(src: &mut Src, ctx: &mut Ctx) -> String {
    let mut t = match src.weighted(&[10, 3, 1]) {
        1 => { ctx.label("token soup"); return soup(src); }
        2 => {
            ctx.label("shipped grammar");
            let name = *src.pick(&["self-syntax.txt", "self-syntax-1.0.txt", "new-self-syntax.txt", "old-syntax.txt", "old-self-syntax.txt"]);
            asset(name)
        }
        _ => {
            ctx.label("generated grammar");
            let g = gen_grammar(src);
            if src.bool() { Printer::styled(src).grammar(&g, &[]) } else { Printer::plain().grammar(&g, &[]) }
        }
    };
    if src.chance(2, 3) {
        ctx.label("mutated");
        let alpha: Vec<String> = SOUP.iter().filter(|x| **x != "/*").map(|x| x.to_string()).collect();
        for _ in 0..src.int(1, 4) { mutate(&mut t, src, &alpha); }
    }
    t
}

pub fn c08(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let text = grammar_text(src, ctx);
    ctx.show(format!("grammar text:\n{:?}", text));
    let set = Settings::default();
    // Deciding on unclosed comments takes exponential time with any of the rule sets.
    let a = match sut_within("built-in rules", BIG, || { let mut t = vec![]; let r = parse(&BUILT_IN.with(|x| x.clone()), &text, &mut t); (r, t) })? {
        Some(a) => a, None => return Err(Stop::Discard("over budget")) };
    let (raw, opt) = SELF.with(|x| x.clone());
    ensure!(!raw.rules.is_empty(), "the self-description does not compile");
    let raw_built_in = bootstrap_rules();
    for (what, s) in [("self-description, optimized", &opt), ("self-description", &raw), ("built-in rules, not optimized", &raw_built_in)] {
        let b = match sut_within(what, BIG * 4, || { let mut t = vec![]; let r = parse_with_indent(s, &text, &mut t, &lib_settings(&set)); (r, t) })? {
            Some(b) => b, None => return fail(format!("{} needs far more work than the built-in rules", what)) };
        ensure!(a.0.is_ok() == b.0.is_ok(), "built-in rules: {:?}\n{}: {:?}", a.0, what, b.0);
        if a.0.is_ok() {
            ensure!(same(&a.1, &b.1), "built-in rules:\n  {}\n{}:\n  {}", show_items(&a.1), what, show_items(&b.1));
        }
    }
    ctx.label(if a.0.is_ok() { "accepted" } else { "rejected" });
    let shown = clip(&ctx.shown, 800);
    ctx.eval(text.len() >= 12, key(&[&text]), || shown);
    Ok(())
}

/// Reading the self-description with itself gives the same rules.
pub fn fixpoint() -> Verdict {
    for name in ["self-syntax.txt", "self-syntax-1.0.txt", "new-self-syntax.txt"] {
        let s = asset(name);
        let first = convert_text(&s)?;
        let second = convert_with(&first, &s)?;
        equal_syntax("reading with itself gives other rules", &second, &first)?;
        let opt = convert_with(&first.clone().optimize(), &s)?;
        equal_syntax("reading with itself optimized gives other rules", &opt, &first)?;
        equal_syntax("compiled", &compile(&s)?, &first.optimize())?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

thread_local! {
    static OLD: Syntax = convert_text(&asset("old-syntax.txt")).unwrap_or_else(|_| Syntax::new());
    static OLD_OPT: Syntax = OLD.with(|x| x.clone()).optimize();
    static ONE: Syntax = convert_text(&asset("self-syntax-1.0.txt")).unwrap_or_else(|_| Syntax::new());
    static INTERIM: Syntax = convert_text(&asset("new-self-syntax.txt")).unwrap_or_else(|_| Syntax::new());
}

/// Prints grammars in the old language.
struct Old<'a> { src: &'a mut Src, strings: Vec<(String, String)> }

const OLD_NAMES: &[&str] = &["x0", "opt", "prop", "é", "inv", "y-z", "日", "n1"];
const OLD_SPACES: &[&str] = &[" ", "  ", "\n", "\t", " \n "];

impl<'a> Old<'a> {
    fn string_ref(&mut self, s: &str) -> String {
        if let Some(x) = self.strings.iter().find(|x| x.1 == s) { return x.0.clone(); }
        let mut name = self.src.pick(OLD_NAMES).to_string();
        while self.strings.iter().any(|x| x.0 == name) { name.push('0'); }
        self.strings.push((name.clone(), s.into()));
        name
    }

    fn lit(&mut self, s: &str, empty_ok: bool) -> String {
        if (s.is_empty() && !empty_ok) || self.src.chance(1, 4) { return self.string_ref(s); }
        if self.src.bool() { spell(s, self.src) } else { quote(s) }
    }

    fn ws(&mut self) -> String { self.src.pick(OLD_SPACES).to_string() }
    fn wso(&mut self) -> String { if self.src.chance(1, 3) { self.ws() } else { String::new() } }

    fn prop(&mut self, p: &Option<String>) -> String {
        match p { None => String::new(), Some(p) => self.lit(p, false) }
    }

    fn rule(&mut self, r: &R) -> String {
        let flag = |b: &bool| if *b { "?" } else { "!" };
        match r {
            R::Ws(opt) => format!("w{}", flag(opt)),
            R::Tag { text, not, inv, prop } => {
                let t = if prop.as_ref().map(|p| p.is_empty()) == Some(true) && !*inv { quote(text) } else { self.lit(text, false) };
                // A reference right before a reference would be read as one name.
                let p = match prop {
                    None => String::new(),
                    Some(p) => {
                        let p = if t.starts_with('"') || *inv { self.lit(p, false) } else { quote(p) };
                        format!("{}{}", if *inv { "!" } else { "" }, p)
                    }
                };
                format!("{}{}{}", if *not { "!" } else { "" }, t, p)
            }
            R::Until { ws, any, opt, prop } => {
                let a = self.lit(any, true);
                let p = self.prop(prop);
                format!("{}{}{}{}", if *ws { ".." } else { "..." }, a, flag(opt), p)
            }
            R::Text { empty, prop } => { let p = self.prop(prop); format!("t{}{}", flag(empty), p) }
            R::Num { us, prop } => { let p = self.prop(prop); format!("${}{}", if *us { "_" } else { "" }, p) }
            R::Sel(v) | R::Seq(v) => {
                let (a, b) = if let R::Sel(_) = r { ("{", "}") } else { ("[", "]") };
                let mut o = String::from(a);
                o.push_str(&self.wso());
                for (i, r) in v.iter().enumerate() {
                    if i > 0 { o.push_str(&self.ws()); }
                    o.push_str(&self.rule(r));
                }
                o.push_str(&self.wso());
                o.push_str(b);
                o
            }
            R::Sep { by, rule, opt, trail } => {
                let (a, b) = (self.rule(by), self.rule(rule));
                format!("s{}{}({}{}{}){}{{{}{}{}}}", flag(opt), if *trail { "." } else { "" },
                    self.wso(), a, self.wso(), self.wso(), self.wso(), b, self.wso())
            }
            R::Rep { rule, opt } => format!("r{}({})", flag(opt), self.rule(rule)),
            R::Lines { rule, .. } => { let a = self.rule(rule); format!("l({}{}{})", self.wso(), a, self.wso()) }
            R::Ref { name, prop } => {
                let n = if self.src.bool() { spell(name, self.src) } else { quote(name) };
                let p = self.prop(prop);
                format!("@{}{}", n, p)
            }
            R::Opt(r) => format!("?{}", self.rule(r)),
            R::Not(_) => unreachable!(),
        }
    }

    fn grammar(&mut self, g: &Grammar) -> String {
        let mut nodes = String::new();
        for n in &g.nodes {
            let r = self.rule(&n.rule);
            let name = spell(&n.name, self.src);
            nodes.push_str(&format!("{}{}{}{}{}{}\n", self.wso(), n.id, self.ws(), name, self.ws(), r));
        }
        let mut o = String::new();
        for (n, v) in self.strings.clone() {
            let v = spell(&v, self.src);
            o.push_str(&format!("{}:{}{}\n", n, self.wso(), v));
        }
        o + &nodes
    }
}

pub fn c09(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let old = src.weighted(&[3, 1, 1]);
    let mut cfg = odd_cfg(src);
    cfg.indent = false;
    if old == 0 { cfg.w[13] = 0; }
    let mut g = Gen::new(src, cfg).grammar();
    if src.chance(1, 700) { ctx.label(enlarge(&mut g, src)); }
    if old == 0 {
        // Two references cannot follow each other in the old language.
        for n in &mut g.nodes {
            n.rule.for_each_mut(&mut |r| if let R::Tag { text, prop: Some(p), .. } = r { if text.is_empty() && p.is_empty() { p.push('p'); } });
        }
    }
    label_grammar(&g, ctx);
    let expected = g.to_syntax();
    let (text, rules) = match old {
        0 => {
            ctx.label("old language");
            let t = Old { src, strings: vec![] }.grammar(&g);
            (t, if src.bool() { OLD.with(|x| x.clone()) } else { OLD_OPT.with(|x| x.clone()) })
        }
        1 => { ctx.label("1.0 language"); (Printer::styled(src).grammar(&g, &[]), ONE.with(|x| x.clone())) }
        _ => { ctx.label("interim language"); (Printer::styled(src).grammar(&g, &[]), INTERIM.with(|x| x.clone())) }
    };
    ctx.show(format!("grammar text:\n{}", text));
    ensure!(!rules.rules.is_empty(), "the description of the language does not compile");
    equal_syntax("older language", &convert_with(&rules, &text)?, &expected)?;
    let plain = Printer::plain().grammar(&g, &[]);
    equal_syntax("current language", &convert_text(&plain)?, &expected)?;
    let shown = ctx.shown.clone();
    ctx.eval(g.size() >= 4, key(&[&text]), || shown);
    Ok(())
}

/// The old language described in itself gives the same rules as its description in the current one.
pub fn old_self() -> Verdict {
    let old = convert_text(&asset("old-syntax.txt"))?;
    let text = asset("old-self-syntax.txt");
    for (what, rules) in [("old in old", old.clone()), ("old in old, optimized", old.clone().optimize())] {
        equal_syntax(what, &convert_with(&rules, &text)?, &old)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C23

/// Replaces one literal in the printed text by a reference to a string nobody defines.
pub fn c23(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    match src.weighted(&[3, 4, 3]) {
        0 => undefined_string(src, ctx),
        1 => undefined_node(src, ctx),
        _ => duplicates(src, ctx),
    }
}

fn small_cfg() -> Cfg { let mut c = Cfg::default(); c.max_nodes = 3; c.depth = 3; c }

fn undefined_string(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut g = Gen::new(src, small_cfg()).grammar();
    if src.chance(1, 400) { ctx.label(enlarge(&mut g, src)); }
    // Put a recognizable literal in some place that takes one.
    const MARK: &str = "\u{2603}mark";
    let size = g.size();
    let at = src.below(size);
    let place = src.below(3);
    {
        let r = g.nth_mut(at).unwrap();
        match r {
            R::Tag { text, prop, .. } => { if place == 0 || prop.is_none() { *text = MARK.into() } else { *prop = Some(MARK.into()) } }
            R::Until { any, prop, .. } => if place == 0 || prop.is_none() { *any = MARK.into() } else { *prop = Some(MARK.into()) },
            R::Text { prop, .. } | R::Num { prop, .. } | R::Ref { prop, .. } => *prop = Some(MARK.into()),
            other => {
                let inner = other.clone();
                let tag = if place == 0 { tag(MARK) } else { tagp("x", MARK) };
                *other = if place == 1 { R::Seq(vec![inner, tag]) } else { R::Sel(vec![tag, inner]) };
            }
        }
    }
    let good = Printer::plain().grammar(&g, &[]);
    let mark = quote(MARK);
    ensure!(good.contains(&mark), "mark lost");
    // Other strings are defined, one of which has much the same name.
    let (name, others) = if src.bool() {
        let other = word(src);
        let mut name = near(&other, src);
        // The printer uses names like `e` itself.
        if name.starts_with('e') && name.len() < 4 { name.push('9'); }
        let mut d: Vec<String> = (0..src.below(3)).map(|i| format!("other{}", i)).collect();
        d.insert(src.below(d.len() + 1), other);
        (name, d.iter().map(|x| format!("_{}: {}\n", x, *src.pick(&["\"zz\"", "\"\"", "\"optional\""]))).collect::<String>())
    } else { (src.pick(&["nope", "E", "é", "ee", "_", "s0"]).to_string(), String::new()) };
    let good = format!("{}{}", others, good);
    let bad = good.replacen(&mark, &format!("_{}", name), 1);
    ctx.show(format!("grammar text:\n{}", bad));
    compile(&good)?;
    let r = sut("syntax()", BIG, || syntax(&bad))?;
    ensure!(r.is_err(), "a grammar using the undefined string `_{}` compiles", name);
    let e = r.unwrap_err();
    let place = good.find(&mark).unwrap();
    // Where nothing else is left of the rule the error has no place.
    ensure!(e.length == 0 && e.offset == 0 || e.offset >= place && e.next_offset() <= place + 1 + name.len(), "error {:?} is not at the reference, which is at {}", e, place);
    ensure!(sut("syntax_errstr()", BIG, || syntax_errstr(&bad))?.is_err(), "syntax_errstr() accepts");
    // Defining it makes the grammar valid and equal.
    let fixed = format!("_{}: {}\n{}", name, mark, bad);
    equal_syntax("with the string defined", &compile(&fixed)?, &compile(&good)?)?;
    ctx.label("undefined string");
    let shown = ctx.shown.clone();
    ctx.eval(true, key(&[&bad]), || shown);
    Ok(())
}

fn undefined_node(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut cfg = small_cfg();
    if src.chance(1, 3) { cfg.max_nodes = 7; }
    let mut gen = Gen::new(src, cfg);
    let mut g = gen.grammar();
    let alpha = gen.alpha.clone();
    if src.chance(1, 400) { ctx.label(enlarge(&mut g, src)); }
    let undefined = if src.bool() {
        // Much the same name as one that is defined.
        let i = if src.chance(1, 3) { g.nodes.len() - 1 } else { src.below(g.nodes.len()) };
        if src.chance(2, 3) { let w = word(src); if g.resolve(&w).is_none() { g.rename(i, &w); } }
        let n = {
            let name = g.nodes[i].name.clone();
            let cs: Vec<char> = name.chars().collect();
            // Less or more of it, more often than other changes.
            match src.below(6) {
                0 if cs.len() > 1 => cs[..src.int(1, cs.len() - 1)].iter().collect(),
                1 => format!("{}{}", name, word(src)),
                2 if cs.len() > 1 && !cs[1].is_ascii_punctuation() => cs[1..].iter().collect(),
                _ => near(&name, src),
            }
        };
        ctx.label("name much like a defined one");
        if g.resolve(&n).is_none() { n } else { "zz".to_string() }
    } else { src.pick(&["zz", "n", "N0", "n00", "é"]).to_string() };
    let at = src.below(g.size());
    {
        let r = g.nth_mut(at).unwrap();
        let keep = r.clone();
        let bad = R::Ref { name: undefined, prop: if src.bool() { Some("p".into()) } else { None } };
        *r = match src.weighted(&[3, 2, 2, 1]) {
            0 => bad,
            1 => R::Seq(vec![bad, keep]),
            2 => R::Sel(vec![bad, keep]),
            _ => R::Sel(vec![keep, bad]),
        };
    }
    let text = Printer::plain().grammar(&g, &[]);
    ctx.show(format!("grammar text:\n{}", text));
    let raw = convert_text(&text)?;
    equal_syntax("rules", &raw, &g.to_syntax())?;
    let s = compile(&text)?;
    let nodes = g.number();
    for _ in 0..6 {
        let set = Settings::default();
        let doc = text_for(&g, src, &alpha, 0, 3);
        ctx.show(format!("grammar text:\n{}\ndocument: {:?}", text, doc));
        let o = match crate::model::run(&nodes, &doc, &set, 60_000) { Ok(o) => o, Err(_) => continue };
        // The reference never matches an undefined node.
        for (what, s) in [("optimized", &s), ("not optimized", &raw)] {
            let p = lib_parse(s, &doc, &set, limit_for(&o))?;
            ensure!(p.0.is_ok() == o.data.is_some(), "{}: {:?}, but by the rule meanings {:?}", what, p.0, o.data.as_ref().map(|d| show_items(d)));
            match &p.0 {
                Ok(()) => ensure!(same(&p.1, o.data.as_ref().unwrap()), "{}: data {}", what, show_items(&p.1)),
                Err(e) => {
                    ensure!(end_of(e) == o.deepest, "{}: error {:?}, deepest failure at {}: {:?}", what, e, o.deepest, o.errors);
                    ensure!(o.errors.contains(e) || (what == "optimized" && o.select_errors.contains(e)), "{}: error {:?} not among {:?}", what, e, o.errors);
                }
            }
            if let Err(ref e) = p.0 {
                if let ParseError::InvalidRule(_, _) = e.data { ctx.label("rejected because of the undefined node"); }
            }
        }
        ctx.label("undefined node");
        let shown = ctx.shown.clone();
        let reached = o.errors.iter().any(|e| matches!(e.data, ParseError::InvalidRule(..)));
        ctx.eval(reached, key(&[&text, &doc]), || shown);
    }
    Ok(())
}

fn duplicates(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut cfg = small_cfg();
    cfg.max_nodes = 4;
    cfg.w[11] = 20;
    let mut gen = Gen::new(src, cfg);
    let mut g = gen.grammar();
    if src.chance(1, 400) { ctx.label(enlarge(&mut g, src)); }
    // Repeat a name: later definitions of it are never referred to.
    let n = g.nodes.len();
    let i = src.below(n);
    if src.chance(1, 3) { let w = word(src); if g.resolve(&w).is_none() { g.rename(i, &w); } }
    let name = g.nodes[i].name.clone();
    let at = src.int(i + 1, n);
    let rule = if src.bool() { tagp("dup", "dup") } else { g.nodes[src.below(n)].rule.clone() };
    g.nodes.insert(at, NodeDef { id: 77, name, rule });
    let text = Printer::plain().grammar(&g, &[]);
    ctx.show(format!("grammar text:\n{}", text));
    let expected = g.to_syntax();
    equal_syntax("duplicate node", &convert_text(&text)?, &expected)?;
    let opt = expected.optimize();
    let got = compile(&text)?;
    equal_syntax("duplicate node, optimized", &got, &opt)?;
    ctx.label("node defined more than once");
    // Repeat a string.
    let g2 = &g;
    let (styled, strings) = {
        let mut p = Printer::styled(src);
        let t = p.grammar(g2, &[]);
        (t, p.strings.clone())
    };
    if !strings.is_empty() {
        let (name, _) = &strings[src.below(strings.len())];
        // After all string definitions, before the first node.
        let first_node = styled.find(&format!("_{}:", strings[strings.len() - 1].0));
        if let Some(p) = first_node {
            // Insert in front of the last definition, unless that is the one repeated.
            let at_front = strings[strings.len() - 1].0 != *name && styled[..p].contains(&format!("_{}:", name));
            if at_front && (p == 0 || styled[..p].ends_with('\n')) {
                let t = format!("{}_{}: \"other\"\n{}", &styled[..p], name, &styled[p..]);
                ctx.show(format!("grammar text:\n{}", t));
                equal_syntax("duplicate string", &compile(&t)?, &got)?;
                ctx.label("string defined more than once");
            }
        }
    }
    let shown = ctx.shown.clone();
    ctx.eval(true, key(&[&text]), || shown);
    Ok(())
}

pub fn pinned_undefined_string() -> Verdict {
    for t in ["1 a = [\"x\" _undef \"y\"]", "1 a = _undef", "1 a = \"x\":_undef", "1 a = .._undef!"] {
        ensure!(sut("syntax()", BIG, || syntax(t))?.is_err(), "{:?} compiles", t);
    }
    Ok(())
}

pub fn pinned_large_id() -> Verdict {
    for t in ["1e19 a = \"x\"", "99999999999999999999 a = \"x\"", "-5 a = \"x\"", "1.7 a = \"x\"", "1e308 a = [\"x\" \"y\"]"] {
        let s = sut("syntax()", BIG, || syntax(t))?;
        let s = match s { Ok(s) => s, Err(_) => continue };
        lib_parse_default(&s, "x")?;
    }
    Ok(())
}
