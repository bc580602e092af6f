//! C12, C25: any input, and agreement of entry points.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::gram::*;
use crate::model::{same, Settings};
use crate::print::Printer;
use crate::props::language::*;
use crate::props::output::*;
use crate::textgen::*;
use piston_meta::meta_rules::IndentSettings;
use piston_meta::*;
use std::sync::Arc;

// ------------------------------------------------------------------ analysis of arbitrary rules

/// The tree of a rule read from text.
fn from_rule(r: &Rule) -> Option<R> {
    let p = |p: &Option<Arc<String>>| p.as_ref().map(|x| x.to_string());
    Some(match r {
        Rule::Whitespace(x) => R::Ws(x.optional),
        Rule::Tag(x) => R::Tag { text: x.text.to_string(), not: x.not, inv: x.inverted, prop: p(&x.property) },
        Rule::UntilAny(x) => R::Until { ws: false, any: x.any_characters.to_string(), opt: x.optional, prop: p(&x.property) },
        Rule::UntilAnyOrWhitespace(x) => R::Until { ws: true, any: x.any_characters.to_string(), opt: x.optional, prop: p(&x.property) },
        Rule::Text(x) => R::Text { empty: x.allow_empty, prop: p(&x.property) },
        Rule::Number(x) => R::Num { us: x.allow_underscore, prop: p(&x.property) },
        Rule::Select(x) => R::Sel(x.args.iter().map(from_rule).collect::<Option<_>>()?),
        Rule::Sequence(x) => R::Seq(x.args.iter().map(from_rule).collect::<Option<_>>()?),
        Rule::SeparateBy(x) => R::Sep { by: Box::new(from_rule(&x.by)?), rule: Box::new(from_rule(&x.rule)?), opt: x.optional, trail: x.allow_trail },
        Rule::Repeat(x) => R::Rep { rule: Box::new(from_rule(&x.rule)?), opt: x.optional },
        Rule::Lines(x) => R::Lines { rule: Box::new(from_rule(&x.rule)?), indent: x.indent },
        Rule::Node(x) => R::Ref { name: x.name.to_string(), prop: p(&x.property) },
        Rule::Optional(x) => R::Opt(Box::new(from_rule(&x.rule)?)),
        Rule::Not(x) => R::Not(Box::new(from_rule(&x.rule)?)),
        _ => return None,
    })
}

pub fn from_syntax(s: &Syntax) -> Option<Grammar> {
    let nodes = s.rules.iter().zip(&s.names).map(|(r, n)| Some(NodeDef { id: 1, name: n.to_string(), rule: from_rule(r)? })).collect::<Option<Vec<_>>>()?;
    Some(Grammar { nodes })
}

/// Whether a rule may match without consuming.
fn nullable(r: &R, g: &Grammar, known: &[bool]) -> bool {
    match r {
        R::Ws(opt) => *opt,
        R::Tag { text, not, .. } => *not || text.is_empty(),
        R::Until { opt, .. } => *opt,
        R::Text { .. } | R::Num { .. } => false,
        R::Sel(v) => v.iter().any(|r| nullable(r, g, known)),
        R::Seq(v) => v.iter().all(|r| nullable(r, g, known)),
        R::Sep { rule, opt, .. } => *opt || nullable(rule, g, known),
        R::Rep { rule, opt } => *opt || nullable(rule, g, known),
        R::Lines { .. } | R::Opt(_) | R::Not(_) => true,
        R::Ref { name, .. } => g.resolve(name).map(|i| known[i]).unwrap_or(false),
    }
}

/// Nodes a rule may refer to before consuming anything.
fn left(r: &R, g: &Grammar, known: &[bool], out: &mut Vec<usize>) {
    match r {
        R::Seq(v) => for r in v { left(r, g, known, out); if !nullable(r, g, known) { break; } },
        R::Sep { by, rule, .. } => { left(rule, g, known, out); if nullable(rule, g, known) { left(by, g, known, out); } }
        R::Ref { name, .. } => if let Some(i) = g.resolve(name) { out.push(i); },
        r => for c in r.children() { left(c, g, known, out); },
    }
}

/// No left recursion, no repetition of what may match nothing.
pub fn well_formed(g: &Grammar) -> bool {
    let n = g.nodes.len();
    let mut known = vec![false; n];
    loop {
        let next: Vec<bool> = g.nodes.iter().map(|d| nullable(&d.rule, g, &known)).collect();
        if next == known { break; }
        known = next;
    }
    let edges: Vec<Vec<usize>> = g.nodes.iter().map(|d| { let mut o = vec![]; left(&d.rule, g, &known, &mut o); o }).collect();
    for i in 0..n {
        let mut seen = vec![false; n];
        let mut todo = edges[i].clone();
        while let Some(k) = todo.pop() {
            if k == i { return false; }
            if !seen[k] { seen[k] = true; todo.extend(&edges[k]); }
        }
    }
    fn ok(r: &R, g: &Grammar, known: &[bool]) -> bool {
        let here = match r {
            R::Rep { rule, .. } => !nullable(rule, g, known),
            R::Sep { by, rule, .. } => !(nullable(rule, g, known) && nullable(by, g, known)),
            _ => true,
        };
        here && r.children().iter().all(|c| ok(c, g, known))
    }
    g.nodes.iter().all(|d| ok(&d.rule, g, &known))
}

// ------------------------------------------------------------------ C12

fn literals(g: &Grammar) -> Vec<String> {
    fn walk(r: &R, o: &mut Vec<String>) {
        match r {
            R::Tag { text, .. } => if !text.is_empty() { o.push(text.clone()) },
            R::Until { any, .. } => if !any.is_empty() { o.push(any.clone()) },
            _ => {}
        }
        for c in r.children() { walk(c, o); }
    }
    let mut o = vec![];
    for n in &g.nodes { walk(&n.rule, &mut o); }
    o.truncate(40);
    o.extend(["a", "1", "\n", " ", "é", "\"", "-", "e", "."].iter().map(|x| x.to_string()));
    o
}

fn hostile(src: &mut Src) -> String {
    match src.weighted(&[3, 2, 2, 2]) {
        0 => any_string(src, 12),
        1 => (0..src.int(1, 8)).map(|_| src.pick(&["1e", "1e5", "9", ".", "-", "+", "_", "e", "E", "1e999999999999999999999", "00", "\"", "\\u", "\\", "\\ud800", "1_"]).to_string()).collect(),
        2 => (0..src.int(1, 8)).map(|_| src.pick(WS).to_string()).collect(),
        _ => { let p = *src.pick(&["(", "[", "{", "a", "9", "\"a\"", "\u{3000}", "\n ", "\t", "1.", "é"]); p.repeat(src.int(1, 300)) }
    }
}

fn deep(src: &mut Src) -> String {
    // Nested deeply, closed or not.
    let (a, b) = *src.pick(&[("[", "]"), ("{", "}"), ("?", ""), ("!", ""), (".r?(", ")"), (".l(", ")"), (".l+( ", " )"), (".s?.(\",\" ", ")"), ("[\"x\" ", "]")]);
    let n = src.int(1, 250);
    let close = if src.chance(2, 3) { n } else { src.below(n + 1) };
    format!("1 a = {}{}{}", a.repeat(n), *src.pick(&["\"a\"", ".$", "a", ""]), b.repeat(close))
}

fn inside(e: &Range<ParseError>, text: &str, what: &str) -> Verdict {
    ensure!(e.next_offset() <= text.len(), "{}: error {:?} at {}..{} of a text of {} bytes", what, e.data, e.offset, e.next_offset(), text.len());
    ensure!(text.is_char_boundary(e.offset) && text.is_char_boundary(e.next_offset()), "{}: error {:?} at {}..{} begins or ends inside a character", what, e.data, e.offset, e.next_offset());
    Ok(())
}

fn errors_agree(what: &str, text: &str, e: &Range<ParseError>, msg: &str) -> Verdict {
    inside(e, text, what)?;
    ensure!(!msg.is_empty(), "{}: empty message", what);
    Ok(())
}

pub fn c12(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let text = match src.weighted(&[6, 2, 1, 1]) {
        0 => grammar_text(src, ctx),
        1 => { ctx.label("arbitrary text"); if src.bool() { any_string(src, 30) } else { hostile(src) } }
        2 => { ctx.label("deep nesting"); deep(src) }
        _ => {
            ctx.label("arbitrary values in a grammar");
            let (a, b, c) = (hostile(src).replace('\n', ""), any_string(src, 4), any_string(src, 8));
            format!("_s: \"{}\"\n{} {} = [\"{}\":_s .$ {}]", any_string(src, 5), a, if b.is_empty() { "a".into() } else { b }, c, hostile(src))
        }
    };
    ctx.show(format!("grammar text: {:?}", clip(&text, 3000)));
    let s = match sut_within("syntax()", 3_000_000, || syntax(&text))? { Some(s) => s, None => return Err(Stop::Discard("grammar text over budget")) };
    let m = match sut_within("syntax_errstr()", 3_000_000, || syntax_errstr(&text))? { Some(s) => s, None => return Err(Stop::Discard("grammar text over budget")) };
    ensure!(s.is_ok() == m.is_ok(), "syntax() {:?}, syntax_errstr() {:?}", s.is_ok(), m.is_ok());
    let shown = clip(&ctx.shown, 800);
    let s = match s {
        Err(e) => {
            errors_agree("syntax()", &text, &e, &m.unwrap_err())?;
            ctx.label("grammar refused");
            ctx.eval(text.len() >= 8, key(&[&text]), || shown);
            return Ok(());
        }
        Ok(s) => s,
    };
    ctx.label("grammar accepted");
    ctx.eval(text.len() >= 8, key(&[&text]), || shown);
    let raw = convert_text(&text)?;
    let g = match from_syntax(&raw) { Some(g) => g, None => return Ok(()) };
    if g.nodes.is_empty() {
        ctx.label("grammar without nodes");
        let r = lib_parse_default(&s, "x")?;
        ensure!(r.0.is_err(), "a grammar without nodes reads a document");
        return Ok(());
    }
    if !well_formed(&g) { ctx.label("grammar is not well formed"); return Ok(()); }
    let alpha = literals(&g);
    for _ in 0..3 {
        let set = match src.weighted(&[4, 1, 1]) {
            0 => Settings::default(),
            1 => gen_settings(src),
            _ => Settings { indent: *src.pick(&[0, 7, 100, 1000]), align_first: src.bool(), tab_spaces: *src.pick(&[0, 1, 4, 255]) },
        };
        let doc = match src.weighted(&[4, 1, 1]) {
            0 => text_for(&g, src, &alpha, 0, 6),
            1 => any_string(src, 20),
            _ => { let mut t = text_for(&g, src, &alpha, 0, 3); let h = hostile(src); let i = if src.bool() { 0 } else { t.len() }; t.insert_str(i, &h); t }
        };
        ctx.show(format!("grammar text: {:?}\ndocument: {:?}\nsettings: {}", clip(&text, 3000), doc, show_settings(&set)));
        let r = match sut_within("parse()", 300_000, || parse_with_indent(&s, &doc, &mut vec![], &lib_settings(&set)))? { Some(r) => r, None => { ctx.label("document over budget"); continue; } };
        let m = match sut_within("parse_errstr()", 600_000, || parse_errstr_with_indent(&s, &doc, &mut vec![], &lib_settings(&set)))? { Some(r) => r, None => continue };
        ensure!(r.is_ok() == m.is_ok(), "parse() {:?}, parse_errstr() {:?}", r, m);
        match r {
            Err(e) => { errors_agree("parse()", &doc, &e, &m.unwrap_err())?; ctx.label("document rejected"); }
            Ok(()) => ctx.label("document accepted"),
        }
        let shown = clip(&ctx.shown, 800);
        ctx.eval(doc.len() >= 2, key(&[&text, &doc, &show_settings(&set)]), || shown);
    }
    Ok(())
}

pub fn pinned_crashes() -> Verdict {
    let docs = ["", "1\n\u{3000}\n2", "\u{3000}", "1e999", "1e99999999999999999999", "+", "-", ".", "\"", "\"\\", "\"\\u", "\"\\é\"", "\u{2028}\n\u{85}1", "ééx", "1_", "_", "e", "--1"];
    for g in ["1 a = .l(.$)", "1 a = .l+(.$_)", "1 a = .t?", "1 a = .t!", "1 a = {.$ .t? .w!}", "1 a = .s?.(.w! .$)", "1 a = [.w? ..\"é\"? ...\"\"?]", "1 a = \"éé\"", "1 a = !\"é\""] {
        let s = compile(g)?;
        for d in docs {
            let (r, _) = lib_parse_default(&s, d)?;
            if let Err(e) = r { inside(&e, d, g)?; formatted(d, e)?; }
        }
    }
    for g in ["", "\n", "_", "1", "1 a", "1 a =", "1 a = ", "1e999 a = \"x\"", "NaN a = \"x\"", "1 a = b", "1 b = {a \"x\"}\n2 a = {b \"y\"}", "1 a = a", "_s: \"", "/*", "//", "/**/", "\u{feff}1 a = \"x\"", "1 a = \"\\u00é0\""] {
        let r = sut("syntax()", BIG, || syntax(g))?;
        if let Err(e) = r { inside(&e, g, "syntax()")?; formatted(g, e)?; }
    }
    Ok(())
}

// ------------------------------------------------------------------ C25

fn scratch() -> std::path::PathBuf {
    let d = root().join("scratch").join(format!("files-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn c25(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    // A grammar text, and documents that often fit.
    let (text, docs) = if src.chance(1, 4) {
        let t = grammar_text(src, ctx);
        let d = vec![any_string(src, 10), String::new()];
        (t, d)
    } else {
        let mut gen = Gen::new(src, Cfg::default());
        let g = gen.grammar();
        let alpha = gen.alpha.clone();
        let mut g = g;
        if src.chance(1, 300) { ctx.label(enlarge(&mut g, src)); }
        let t = if src.bool() { Printer::styled(src).grammar(&g, &[]) } else { Printer::plain().grammar(&g, &[]) };
        let mut t = t;
        if src.chance(1, 12) {
            // Something in front, behind or within.
            let odd = *src.pick(&["\u{feff}", "\0", "\u{200b}", "\r\n", "\r", "//", "/* */", "é", "\u{2028}", "\"", "1", "_:\"", "\u{3000}", "\u{1a}", "#!"]);
            let at = match src.below(3) { 0 => 0, 1 => t.len(), _ => { let mut i = src.below(t.len() + 1); while !t.is_char_boundary(i) { i -= 1; } i } };
            t.insert_str(at, odd);
            if src.bool() { t.push_str(odd); }
        }
        let d = (0..4).map(|_| text_for(&g, src, &alpha, 0, 4)).collect();
        ctx.label("generated grammar and documents");
        (t, d)
    };
    ctx.show(format!("grammar text:\n{}", clip(&text, 3000)));
    let a = match sut_within("syntax()", 3_000_000, || syntax(&text))? { Some(s) => s, None => return Err(Stop::Discard("grammar text over budget")) };
    let b = match sut_within("syntax_errstr()", 3_000_000, || syntax_errstr(&text))? { Some(s) => s, None => return Err(Stop::Discard("grammar text over budget")) };
    let files = src.chance(1, 20);
    match (&a, &b) {
        (Ok(x), Ok(y)) => ensure!(x == y, "syntax() and syntax_errstr() compile to different rules"),
        (Err(_), Err(_)) => {}
        _ => return fail(format!("syntax() {:?}\nsyntax_errstr() {:?}", a.as_ref().err(), b.as_ref().err())),
    }
    let s = match a {
        Ok(s) => s,
        Err(e) => {
            let m = formatted(&text, e)?;
            ensure!(b.as_ref().err() == Some(&m), "syntax_errstr() gives\n{:?}\nthe error of syntax() formatted is\n{:?}", b.err(), m);
            ctx.label("grammar refused");
            if files { load(&text, &docs[0], None, Some(&m), src.chance(1, 12), ctx)?; }
            let shown = clip(&ctx.shown, 800);
            ctx.eval(text.len() >= 8, key(&[&text]), || shown);
            return Ok(());
        }
    };
    let g = match from_syntax(&convert_text(&text)?) { Some(g) => g, None => return Ok(()) };
    if !well_formed(&g) { return Err(Stop::Discard("grammar is not well formed")); }
    for doc in &docs {
        ctx.show(format!("grammar text:\n{}\ndocument: {:?}", clip(&text, 3000), doc));
        let prior = vec![Range::new(1, 1).wrap(MetaData::Bool(Arc::new("before".into()), true))];
        let go = |what: &str, f: &dyn Fn(&mut Vec<Range<MetaData>>) -> Result<(), Range<ParseError>>| -> Result<Option<Parsed>, Stop> {
            let mut d = prior.clone();
            let r = sut_within(what, 300_000, || f(&mut d))?;
            Ok(r.map(|r| (r, d)))
        };
        let gos = |what: &str, f: &dyn Fn(&mut Vec<Range<MetaData>>) -> Result<(), String>| -> Result<Option<(Result<(), String>, Vec<Range<MetaData>>)>, Stop> {
            let mut d = prior.clone();
            let r = sut_within(what, 300_000, || f(&mut d))?;
            Ok(r.map(|r| (r, d)))
        };
        let p = match go("parse()", &|d| parse(&s, doc, d))? { Some(p) => p, None => { ctx.label("document over budget"); continue; } };
        let set = IndentSettings::default();
        let q = match go("parse_with_indent()", &|d| parse_with_indent(&s, doc, d, &set))? { Some(p) => p, None => continue };
        ensure!(p.0 == q.0, "parse() {:?}\nparse_with_indent() {:?}", p.0, q.0);
        if p.0.is_ok() { ensure!(same(&p.1, &q.1), "parse()\n  {}\nparse_with_indent()\n  {}", show_items(&p.1), show_items(&q.1)); }
        let m = match &p.0 { Ok(()) => None, Err(_) => {
            let e = match go("parse()", &|d| parse(&s, doc, d))? { Some((Err(e), _)) => e, x => return fail(format!("parse() again: {:?}", x.map(|x| x.0))) };
            Some(formatted(doc, e)?)
        } };
        // With the settings given, too.
        let other = gen_settings(src);
        let o1 = go("parse_with_indent()", &|d| parse_with_indent(&s, doc, d, &lib_settings(&other)))?;
        let o2 = gos("parse_errstr_with_indent()", &|d| parse_errstr_with_indent(&s, doc, d, &lib_settings(&other)))?;
        if let (Some(o1), Some(o2)) = (o1, o2) {
            ensure!(o1.0.is_ok() == o2.0.is_ok(), "{}: parse_with_indent() {:?}\nparse_errstr_with_indent() {:?}", show_settings(&other), o1.0, o2.0);
            match o1.0 {
                Ok(()) => ensure!(same(&o1.1, &o2.1), "data differs with {}", show_settings(&other)),
                Err(e) => { let m = formatted(doc, e)?; ensure!(o2.0.as_ref().err() == Some(&m), "{:?} instead of {:?}", o2.0, m); }
            }
        }
        for (what, r) in [("parse_errstr()", gos("parse_errstr()", &|d| parse_errstr(&s, doc, d))?),
            ("parse_errstr_with_indent()", gos("parse_errstr_with_indent()", &|d| parse_errstr_with_indent(&s, doc, d, &set))?)] {
            let r = match r { Some(r) => r, None => continue };
            match (&p.0, &r.0) {
                (Ok(()), Ok(())) => ensure!(same(&p.1, &r.1), "parse()\n  {}\n{}\n  {}", show_items(&p.1), what, show_items(&r.1)),
                (Err(_), Err(e)) => ensure!(Some(e) == m.as_ref(), "{} gives\n{:?}\nthe error of parse() formatted is\n{:?}", what, e, m),
                _ => return fail(format!("parse() {:?}\n{} {:?}", p.0, what, r.0)),
            }
        }
        // Settings by default are those documented.
        let dflt = lib_settings(&Settings::default());
        let z = match go("parse_with_indent()", &|d| parse_with_indent(&s, doc, d, &dflt))? { Some(p) => p, None => continue };
        ensure!(p.0 == z.0 && (p.0.is_err() || same(&p.1, &z.1)), "default settings are not indent 0, aligned, tabs of 4 spaces: {:?} and {:?}", p.0, z.0);
        if files {
            let want = if p.0.is_ok() { Some(&p.1[1..]) } else { None };
            load(&text, doc, want, m.as_ref(), src.chance(1, 12), ctx)?;
            if m.is_none() && src.chance(1, 4) { not_text(&text, doc, src, ctx)?; }
        }
        // Unwrapping.
        if src.chance(1, 30) {
            ensure!(sut_panics(1000, || stderr_unwrap(doc, Ok::<u32, Range<ParseError>>(5))) == Some(5), "stderr_unwrap changes the value");
            if let Err(e) = p.0 { ensure!(sut_panics(1000, || stderr_unwrap(doc, Err::<u32, _>(e))).is_none(), "stderr_unwrap returns for an error"); }
            ctx.label("stderr_unwrap");
        }
        ctx.label(if m.is_none() { "accepted" } else { "rejected" });
        let shown = clip(&ctx.shown, 800);
        ctx.eval(doc.len() >= 2, key(&[&text, doc]), || shown);
    }
    Ok(())
}

/// Files that are not UTF-8 can not be loaded.
fn not_text(text: &str, doc: &str, src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let d = scratch();
    let (a, b) = (d.join("grammar.txt"), d.join("data.txt"));
    let bad: &[u8] = *src.pick(&[&b"\xff"[..], b"\xc3", b"\xe6\x97", b"\x80", b"\xed\xa0\x80", b"\xf8\x88", b"\xff\xfe"]);
    let second = src.bool();
    let mut c: Vec<u8> = (if second { doc } else { text }).into();
    let at = match src.below(3) { 0 => 0, 1 => c.len(), _ => src.below(c.len() + 1) };
    for (i, x) in bad.iter().enumerate() { c.insert(at + i, *x); }
    if std::str::from_utf8(&c).is_ok() { return Ok(()); }
    std::fs::write(&a, if second { text.as_bytes() } else { &c }).unwrap();
    std::fs::write(&b, if second { &c } else { doc.as_bytes() }).unwrap();
    let got = sut_panics(6_000_000, || load_syntax_data(&a, &b));
    let _ = std::fs::remove_dir_all(&d);
    if let Some(g) = got { return fail(format!("bytes {:?} at {} of the {} are loaded:\n  {}", bad, at, if second { "data" } else { "grammar" }, show_items(&g))); }
    ctx.label("files that are not text");
    Ok(())
}

/// Loads from files; `want`: the data, or a panic.
/// `print`: in another process, to see what is printed, too.
fn load(text: &str, doc: &str, want: Option<&[Range<MetaData>]>, message: Option<&String>, print: bool, ctx: &mut Ctx) -> Verdict {
    let d = scratch();
    let (a, b) = (d.join("grammar.txt"), d.join("data.txt"));
    std::fs::write(&a, text).unwrap();
    std::fs::write(&b, doc).unwrap();
    let got = sut_panics(6_000_000, || load_syntax_data(&a, &b));
    let printed = if print { Some(std::process::Command::new(std::env::current_exe().unwrap()).arg("print").arg(&a).arg(&b).output().unwrap()) } else { None };
    let _ = std::fs::remove_dir_all(&d);
    match (&got, want) {
        (Some(g), Some(w)) => ensure!(same(g, w), "load_syntax_data()\n  {}\nparse()\n  {}", show_items(g), show_items(w)),
        (None, None) => {}
        (None, Some(_)) => return fail("load_syntax_data() panics, parsing succeeds".into()),
        (Some(_), None) => return fail("load_syntax_data() succeeds, compiling or parsing fails".into()),
    }
    if let Some(o) = printed {
        match want {
            Some(w) => {
                let written = sut("json::write()", BIG, || { let mut v: Vec<u8> = vec![]; let r = json::write(&mut v, w); (v, r.is_ok()) })?;
                ensure!(written.1 && o.stdout == written.0, "json::print() prints {:?}\njson::write() writes {:?}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&written.0));
                ctx.label("data printed");
            }
            None => if let Some(m) = message {
                ensure!(!o.status.success(), "load_syntax_data() returns for an error");
                ensure!(contains(&o.stderr, m.as_bytes()), "load_syntax_data() prints {:?}\nthe error formatted is {:?}", String::from_utf8_lossy(&o.stderr), m);
                ctx.label("error printed");
            }
        }
    }
    ctx.label(if got.is_some() { "loaded from files" } else { "loading panics" });
    Ok(())
}

pub fn pinned_no_nodes() -> Verdict {
    for g in ["", "\n", "_a: \"x\"\n", "// comment\n"] {
        let s = compile(g)?;
        ensure!(s.rules.is_empty(), "rules from {:?}", g);
        for d in ["", "x", "\n"] {
            let (r, _) = lib_parse_default(&s, d)?;
            ensure!(matches!(r, Err(ref e) if e.data == ParseError::NoRules), "a grammar without nodes on {:?}: {:?}", d, r);
            ensure!(sut("parse_errstr()", BIG, || parse_errstr(&s, d, &mut vec![]))?.is_err(), "parse_errstr()");
        }
    }
    ensure!(lib_parse_default(&Syntax::new(), "")?.0.is_err(), "an empty syntax reads a document");
    let d = scratch();
    let missing = d.join("missing");
    let r = sut_panics(1000, || load_syntax_data(&missing, &missing));
    let _ = std::fs::remove_dir_all(&d);
    ensure!(r.is_none(), "missing files are loaded");
    Ok(())
}

fn contains(all: &[u8], part: &[u8]) -> bool { part.is_empty() || all.windows(part.len()).any(|w| w == part) }

/// Loads and prints, in a process of its own.
pub fn print(grammar: &str, data: &str) -> i32 {
    json::print(&load_syntax_data(grammar, data));
    0
}
