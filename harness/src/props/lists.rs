//! C18, C19, C21: outlines, lines and separated lists.

use crate::common::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Settings;
use crate::print::quote;
use crate::props::literals::compiled;
use crate::props::output::any_string;
use piston_meta::*;

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, PartialEq)]
struct Tree(String, Vec<Tree>);

fn gen_forest(src: &mut Src, depth: usize, count: &mut usize) -> Vec<Tree> {
    let n = src.weighted(&[2, 3, 3, 2, 1]);
    let mut v = vec![];
    for _ in 0..n {
        if *count >= 24 { break; }
        *count += 1;
        let name = format!("{}{}", src.pick(&["a", "é", "日本", "x-y", ":", "\""]), count);
        let sub = if depth > 0 { gen_forest(src, depth - 1, count) } else { vec![] };
        v.push(Tree(name, sub));
    }
    v
}

/// Many lines, or deeply nested ones.
fn large_forest(src: &mut Src) -> Vec<Tree> {
    let name = |i: usize| format!("n{}", i);
    if src.bool() {
        let n = src.magnitude(3_000);
        let mut c = Cheap::new(src);
        let mut v: Vec<Tree> = vec![];
        for i in 0..n {
            let t = Tree(name(i), vec![]);
            if c.below(3) > 0 { if let Some(l) = v.last_mut() { l.1.push(t); continue; } }
            v.push(t);
        }
        v
    } else {
        let n = src.magnitude(140);
        let mut f = vec![];
        for i in (0..n).rev() { f = vec![Tree(name(i), f)]; }
        f
    }
}

#[derive(Clone, Debug)]
struct Line { width: usize, name: String }

/// Gives every block an indention of its own.
fn layout(f: &[Tree], min: usize, exact: bool, src: &mut Src, out: &mut Vec<Line>) {
    let width = if exact { min } else { min + src.weighted(&[4, 3, 2, 2, 2, 1, 1]) };
    for t in f {
        out.push(Line { width, name: t.0.clone() });
        layout(&t.1, width + 1, exact, src, out);
    }
}

fn indention(mut w: usize, tab: usize, tabs: bool, src: &mut Src) -> String {
    let mut o = String::new();
    while w > 0 {
        if tabs && w >= tab && src.chance(1, 2) { o.push('\t'); w -= tab; } else { o.push(' '); w -= 1; }
    }
    o
}

fn blank(src: &mut Src) -> String { src.pick(&["", " ", "\t", "   ", "\r", "\u{3000}", " \t ", "\u{2028}", "\u{a0}", "      "]).to_string() }

fn print_lines(lines: &[Line], tab: usize, tabs: bool, src: &mut Src) -> String {
    let mut o = String::new();
    if src.chance(1, 3) { for _ in 0..src.int(1, 2) { o.push_str(&blank(src)); o.push('\n'); } }
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            if src.chance(1, 6) { o.push_str(&blank(src)); }
            o.push('\n');
            while src.chance(1, 6) { o.push_str(&blank(src)); o.push('\n'); }
        }
        o.push_str(&indention(l.width, tab, tabs, src));
        o.push_str(&l.name);
    }
    if src.chance(1, 2) { o.push_str(&blank(src)); o.push('\n'); if src.chance(1, 3) { o.push_str(&blank(src)); } }
    o
}

/// What an outline denotes: decided by the indention of lines alone.
fn outline(lines: &[Line], min: usize) -> Option<Vec<Tree>> {
    fn block(lines: &[Line], i: &mut usize, min: usize) -> Vec<Tree> {
        let mut v = vec![];
        let width = match lines.get(*i) { Some(l) if l.width >= min => l.width, _ => return v };
        while let Some(l) = lines.get(*i) {
            if l.width != width { break; }
            *i += 1;
            let sub = block(lines, i, width + 1);
            v.push(Tree(l.name.clone(), sub));
        }
        v
    }
    let mut i = 0;
    let v = block(lines, &mut i, min);
    if i == lines.len() { Some(v) } else { None }
}

fn read_tree(d: &[Range<MetaData>], i: &mut usize) -> Option<Vec<Tree>> {
    let mut v = vec![];
    while let Some(MetaData::StartNode(n)) = d.get(*i).map(|x| &x.data) {
        if &***n != "item" { return None; }
        *i += 1;
        let name = match d.get(*i).map(|x| &x.data) { Some(MetaData::String(k, v)) if &***k == "name" => v.to_string(), _ => return None };
        *i += 1;
        let sub = read_tree(d, i)?;
        match d.get(*i).map(|x| &x.data) { Some(MetaData::EndNode(n)) if &***n == "item" => *i += 1, _ => return None }
        v.push(Tree(name, sub));
    }
    Some(v)
}

const OUTLINES: &[&str] = &[
    // As in the documentation, a name and below it what is deeper.
    "1 item = [..\"%\"!:\"name\" .l+(item:\"item\")]\n2 doc = .l+(item:\"item\")",
    // A block that is tried and abandoned before.
    "1 item = [..\"%\"!:\"name\" {[.l+(..\"%\"!:\"other\") \"%%\"] .l+(item:\"item\")}]\n2 doc = .l+(item:\"item\")",
    "1 item = [..\"%\"!:\"name\" ?[.l+(item:\"item\") \"%%\"] .l+(item:\"item\")]\n2 doc = [?[.l+(item:\"no\") \"%%\"] .l+(item:\"item\")]",
    // Looked at first.
    "1 item = [..\"%\"!:\"name\" !\"%\" .l+(item:\"item\")]\n2 doc = [!.r!(\"%\") !![.l+(item:\"no\")] .l+(item:\"item\")]",
];

pub fn c18(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 4) { return several_blocks(src, ctx); }
    let mut count = 0;
    let big = src.chance(1, 600);
    let f = if big { ctx.label("large outline"); large_forest(src) } else { gen_forest(src, 4, &mut count) };
    let set = Settings {
        indent: [0, 0, 1, 2, 5][src.below(5)],
        align_first: !src.chance(1, 4),
        tab_spaces: [4, 2, 8, 1, 3][src.below(5)],
    };
    let mut lines = vec![];
    layout(&f, set.indent as usize, !set.align_first, src, &mut lines);
    // Now and then one line is moved.
    let moved = !lines.is_empty() && src.chance(2, 5);
    if moved {
        let i = src.below(lines.len());
        let w = lines[i].width;
        lines[i].width = match src.below(4) { 0 => w + 1, 1 => w.saturating_sub(1), 2 => src.below(12), _ => w + src.int(1, 4) };
    }
    let tabs = src.chance(1, 2);
    let text = print_lines(&lines, set.tab_spaces as usize, tabs, src);
    // Trying a block first at every level takes time exponential in their number.
    let gi = if !big && src.chance(1, 3) { src.below(OUTLINES.len()) } else { 0 };
    ctx.show(format!("grammar:\n{}\ndocument: {:?}\nsettings: {}", OUTLINES[gi], text, show_settings(&set)));
    let want = if !moved { Some(f) } else if set.align_first { outline(&lines, set.indent as usize) } else {
        // Each level is exactly one deeper.
        fn exact(f: &[Tree], lines: &[Line], i: &mut usize, w: usize) -> bool {
            for t in f {
                if lines[*i].width != w { return false; }
                *i += 1;
                if !exact(&t.1, lines, i, w + 1) { return false; }
            }
            true
        }
        match outline(&lines, set.indent as usize) {
            Some(f) => if exact(&f, &lines, &mut 0, set.indent as usize) { Some(f) } else { None },
            None => None,
        }
    };
    let s = compiled(OUTLINES[gi])?;
    let (r, d) = lib_parse(&s, &text, &set, BIG)?;
    match (&r, &want) {
        (Err(e), Some(w)) => return fail(format!("rejected: {:?}\nthe outline is {:?}", e, w)),
        (Ok(()), None) => return fail(format!("accepted, but a line is not indented to its block\n  {}", show_items(&d))),
        (Ok(()), Some(w)) => {
            let mut i = 0;
            let got = read_tree(&d, &mut i);
            ensure!(i == d.len() && got.as_ref() == Some(w), "read {:?}\nprinted {:?}\n  {}", got, w, show_items(&d));
        }
        _ => {}
    }
    ctx.label(if moved { if want.is_some() { "line moved, still an outline" } else { "line moved, no outline" } } else { "outline" });
    if text.contains('\t') && tabs { ctx.label("tabs"); }
    if gi > 0 { ctx.label("block tried before"); }
    if !set.align_first { ctx.label("exact indention"); }
    let shown = ctx.shown.clone();
    ctx.eval(lines.len() >= 3, key(&[OUTLINES[gi], &text, &show_settings(&set)]), || shown);
    Ok(())
}

/// Blocks one after the other, each aligned on its own.
fn several_blocks(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let n = src.int(2, 4);
    let mut g = String::from("1 item = [..\"%\"!:\"name\" .l+(item:\"item\")]\n2 doc = [");
    let set = Settings { indent: [0, 1, 3][src.below(3)], align_first: true, tab_spaces: 4 };
    let mut text = String::new();
    let mut want = vec![];
    for i in 0..n {
        if i > 0 {
            g.push_str(" .w? \"%\" ");
            text.push('\n');
            text.push_str(&" ".repeat(src.below(6)));
            text.push_str("%\n");
        }
        // A block that is not there leaves no trace either.
        if src.chance(1, 4) { g.push_str("?[.l+(item) \"%%\"] "); }
        g.push_str(".l+(item:\"item\")");
        let mut count = i * 100;
        let mut limit = 0;
        let f = gen_forest(src, 2, &mut limit);
        fn rename(f: &mut [Tree], c: &mut usize) { for t in f { *c += 1; t.0 = format!("n{}", c); rename(&mut t.1, c); } }
        let mut f = f;
        rename(&mut f, &mut count);
        let mut lines = vec![];
        layout(&f, set.indent as usize, false, src, &mut lines);
        text.push_str(&print_lines(&lines, 4, false, src));
        want.extend(f);
    }
    g.push_str(" .w?]");
    ctx.show(format!("grammar:\n{}\ndocument: {:?}\nsettings: {}", g, text, show_settings(&set)));
    let s = compiled(&g)?;
    let (r, d) = lib_parse(&s, &text, &set, BIG)?;
    ensure!(r.is_ok(), "rejected: {:?}\nthe outlines are {:?}", r, want);
    let mut i = 0;
    let got = read_tree(&d, &mut i);
    ensure!(i == d.len() && got.as_ref() == Some(&want), "read {:?}\nprinted {:?}\n  {}", got, want, show_items(&d));
    ctx.label("several blocks");
    let shown = ctx.shown.clone();
    ctx.eval(want.len() >= 3, key(&[&g, &text, &show_settings(&set)]), || shown);
    Ok(())
}

pub fn pinned_blocks() -> Verdict {
    let s = compiled("1 a = {[.l+(\"a\") \"X\"] [.w? \"a\" .l(\"b\") .w? \"Y\" .l+(\"c\":\"c\")]}")?;
    let (r, _) = lib_parse_default(&s, "    a\nb\nY\nc\n")?;
    ensure!(r.is_ok(), "an abandoned block influences a later one: {:?}", r);
    Ok(())
}

// ------------------------------------------------------------------ C19

/// White space that does not end a line.
const BLANKS: &[&str] = &[" ", "\t", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2003}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}"];

fn gap(src: &mut Src, max: usize) -> String { let mut n = src.len(max); if src.chance(1, 4000) { n = src.magnitude(6_000); let mut c = Cheap::new(src); return (0..n).map(|_| *c.pick(BLANKS)).collect(); } (0..n).map(|_| *src.pick(BLANKS)).collect() }

pub fn c19(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    // Item rules, each with a way to spell the item of a value.
    let kind = src.below(5);
    let rule = [".$:\"v\"", "[\"<\" ...\">\"?:\"v\" \">\"]", "word:\"w\"", "[...\"\\n\"!:\"v\" \"\\n\"]", "[.$:\"v\" .w?]"][kind];
    let self_ending = kind == 3;
    // An item starts where its line starts: it reads the white space in front itself, or there is none.
    // Indented lines that are all at the same level are read like lines.
    let indent = src.chance(1, 3);
    // Items that read the white space behind them, so that the next one starts there.
    let reads_behind = kind == 4;
    let level = if indent && !reads_behind { " ".repeat(src.below(4)) } else { String::new() };
    let reads_front = !indent && kind < 3 && src.bool();
    let rule = if reads_front { format!("[.w? {}]", rule) } else { rule.to_string() };
    let front = |src: &mut Src| -> String { if reads_front || reads_behind { gap(src, 2) } else { level.clone() } };
    let mut g = String::new();
    if kind == 2 { g.push_str("1 word = [..\"<\"!:\"v\"]\n"); }
    let with_prefix = src.chance(1, 3);
    g.push_str(&format!("2 doc = [{}.l{}({}) ...\"\u{1}\"?:\"rest\"]", if with_prefix { "\"é\" " } else { "" }, if indent { "+" } else { "" }, rule));
    let s = compiled(&g)?;
    let n = src.weighted(&[1, 3, 4, 3, 2, 1]);
    let n = if src.chance(1, 800) { ctx.label("many lines"); n + src.magnitude(1_500) } else { n };
    let vals: Vec<String> = (0..n).map(|i| match kind {
        0 | 4 => format!("{}", i * 7 + src.below(5)),
        1 => src.pick(&["a", "", "é日", " ", "\n", "a\nb"]).to_string(),
        _ => src.pick(&["w", "é", "日本", "x1", "-"]).to_string(),
    }).collect();
    let joined = !self_ending && n >= 2 && src.chance(1, 4);
    let join_at = if joined { src.int(1, n - 1) } else { 0 };
    let stop = !joined && src.chance(1, 4);
    let mut text = String::from(if with_prefix { "é" } else { "" });
    // Before the first item a line end is not needed.
    if src.bool() { while src.chance(1, 2) { text.push_str(&gap(src, 2)); text.push('\n'); } if !reads_behind { text.push_str(&front(src)); } }
    else if n > 0 { text.push_str(&level); }
    let mut separated = true;
    for (i, v) in vals.iter().enumerate() {
        if i > 0 {
            if joined && i == join_at {
                let mut w = gap(src, 3);
                // Numbers and words need something between them.
                if kind != 1 && w.is_empty() { w.push(' '); }
                text.push_str(&w);
                separated = false;
            } else if self_ending {
                // The item has ended with a line end already.
                while src.chance(1, 3) { text.push_str(&gap(src, 2)); text.push('\n'); }
                text.push_str(&level);
            } else {
                text.push_str(&gap(src, 2));
                text.push('\n');
                while src.chance(1, 3) { text.push_str(&gap(src, 2)); text.push('\n'); }
                text.push_str(&front(src));
            }
        }
        match kind {
            1 => { text.push('<'); text.push_str(v); text.push('>'); }
            3 => { text.push_str(v); text.push('\n'); }
            _ => text.push_str(v),
        }
    }
    let mut rest = "";
    if stop && kind != 3 {
        // Something else on a line of its own.
        rest = *src.pick(&["<", "<<x", "<\n1"]);
        if kind == 1 { rest = *src.pick(&["x", "1", ">\n<a>"]); }
        if n > 0 { text.push('\n'); }
        text.push_str(&gap(src, 2));
        text.push_str(rest);
    } else if src.bool() {
        text.push_str(&gap(src, 3));
        while src.chance(1, 2) { text.push('\n'); text.push_str(&gap(src, 2)); }
    }
    ctx.show(format!("grammar:\n{}\ndocument: {:?}", g, text));
    let set = Settings::default();
    let (r, d) = lib_parse(&s, &text, &set, BIG)?;
    let shown = ctx.shown.clone();
    if !separated {
        ensure!(r.is_err(), "two items on one line are accepted\n  {}", show_items(&d));
        ctx.label("two items on one line");
    } else {
        ensure!(r.is_ok(), "rejected: {:?}", r);
        let mut got = vec![];
        let mut left = None;
        for x in &d {
            match &x.data {
                MetaData::F64(_, v) => got.push(format!("{}", v)),
                MetaData::String(k, v) if &***k == "rest" => left = Some((v.to_string(), x.offset)),
                MetaData::String(_, v) => got.push(v.to_string()),
                _ => {}
            }
        }
        ensure!(got == vals, "read {:?}, written {:?}\n  {}", got, vals, show_items(&d));
        let (left, at) = match left { Some(l) => l, None => return fail("no rest".into()) };
        ensure!(left.trim_start() == rest && (!rest.is_empty() || left.is_empty()), "{:?} is left, expected {:?}", left, rest);
        ensure!(at + left.len() == text.len(), "the rest is at {}", at);
        ctx.label(if rest.is_empty() { "all lines are items" } else { "stops at another line" });
        if self_ending { ctx.label("items end with a line end"); }
        if indent { ctx.label("indented lines"); }
        if reads_behind { ctx.label("items read the white space behind them"); }
    }
    ctx.eval(n >= 2, key(&[&g, &text]), || shown);
    Ok(())
}

pub fn pinned_lines() -> Verdict {
    let s = compiled("1 a = .l(.$:\"v\")")?;
    for (t, ok) in [("1\n\u{3000}\n2", true), ("1\n2", true), ("", true), ("\n\n", true), ("1 2", false), ("1\u{2028}2", false), ("1\r\n\u{a0}\n2\u{3000}", true)] {
        let (r, _) = lib_parse_default(&s, t)?;
        ensure!(r.is_ok() == ok, "{:?}: {:?}", t, r);
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

struct Form { by: (&'static str, &'static [&'static str]), opt: bool, trail: bool }

/// Separators that can be left out; only lists that allow a trailing separator can end with them.
const NULLABLE: &[(&str, &[&str])] = &[
    ("?\",\"", &["", ","]),
    ("[.w? ?\";\"]", &["", " ", ";", "\n;"]),
    ("{[\",\" \"-\"] ?\"é\"}", &["", ",-", "é"]),
];

fn nullable(f: &Form) -> bool { f.by.1[0].is_empty() }

const BYS: &[(&str, &[&str])] = &[
    ("\",\"", &[","]),
    ("[.w? \",\" .w?]", &[",", " , ", ",\n", "\t,"]),
    (".w!", &[" ", "\n", "  ", "\u{3000}"]),
    ("\"ab\"", &["ab"]),
    ("{\",\" \";\"}", &[",", ";"]),
    ("[\",\" ?\"-\"]", &[",", ",-"]),
    ("sep", &["é", "éé"]),
    ("\"\\n\"", &["\n"]),
    ("\"\\r\\n\"", &["\r\n"]),
    ("\" \"", &[" "]),
    ("\"\\t\"", &["\t"]),
];

/// Separators of lists in lists, none of which begins as another does.
const DIRECT: &[(&str, &[&str])] = &[
    ("\",\"", &[","]),
    ("\";\"", &[";"]),
    ("[.w? \"|\" .w?]", &["|", " | ", "|\n", "\t|"]),
    ("{\"ab\" \"--\"}", &["ab", "--"]),
    ("sep", &["é", "éé"]),
];

fn form(src: &mut Src, any: bool) -> Form {
    if any && src.chance(1, 5) { return Form { by: NULLABLE[src.below(NULLABLE.len())], opt: src.bool(), trail: true }; }
    if src.chance(1, 8) {
        // Any text, if none of it can be part of an item or of a list.
        let w = match src.known(3) { Some(w) => w.to_string(), None => any_string(src, 6) };
        let w: String = w.chars().filter(|c| !c.is_ascii_digit() && !"<'()xy+-.eE_|,;aé".contains(*c)).take(40).collect();
        if !w.is_empty() && w.trim() == w {
            let w: &'static str = Box::leak(w.into_boxed_str());
            return Form { by: (Box::leak(quote(w).into_boxed_str()), Box::leak(vec![w].into_boxed_slice())), opt: src.bool(), trail: src.bool() };
        }
    }
    Form { by: BYS[src.below(BYS.len())], opt: src.bool(), trail: src.bool() }
}

fn list_rule(f: &Form, rule: &str) -> String {
    format!(".s{}{}({} {})", if f.opt { "?" } else { "!" }, if f.trail { "." } else { "" }, f.by.0, rule)
}

/// Prints a list of printed items; returns whether it is valid.
fn print_list(f: &Form, items: &[String], src: &mut Src, out: &mut String, ctx: &mut Ctx) -> bool {
    let mut ok = true;
    if items.is_empty() {
        ctx.label("empty list");
        if !nullable(f) && src.chance(1, 6) { out.push_str(f.by.1[0]); ctx.label("separator only"); return false; }
        return f.opt;
    }
    if !nullable(f) && src.chance(1, 20) { out.push_str(f.by.1[0]); ok = false; ctx.label("leading separator"); }
    for (i, it) in items.iter().enumerate() {
        if i > 0 {
            out.push_str(src.pick(f.by.1));
            // A second separator, unless that is the same as one longer separator.
            if !nullable(f) && f.by.0 != ".w!" && f.by.0 != "sep" && src.chance(1, 30) { out.push_str(f.by.1[0]); ok = false; ctx.label("double separator"); }
        }
        out.push_str(it);
    }
    match src.weighted(&[5, 4, if f.by.0 == ".w!" || f.by.0 == "sep" || nullable(f) { 0 } else { 1 }]) {
        0 => {}
        1 => { out.push_str(src.pick(f.by.1)); ok &= f.trail; ctx.label(if f.trail { "trailing separator allowed" } else { "trailing separator refused" }); }
        _ => { out.push_str(f.by.1[0]); out.push_str(f.by.1[0]); ok = false; ctx.label("two trailing separators"); }
    }
    ok
}

pub fn c21(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let item_kind = src.below(4);
    // Numbers need something between them.
    let nested = src.chance(1, 3);
    // A list of lists, with nothing around the inner ones.
    let direct = nested && src.chance(1, 3);
    let (inner, outer) = if direct {
        let (mut a, mut b) = (DIRECT[src.below(DIRECT.len())], DIRECT[src.below(DIRECT.len())]);
        while a.1[0] == b.1[0] { b = DIRECT[(DIRECT.iter().position(|x| *x == b).unwrap() + 1) % DIRECT.len()]; }
        if src.bool() { std::mem::swap(&mut a, &mut b); }
        ctx.label("list of lists directly");
        (Form { by: a, opt: false, trail: src.bool() }, Form { by: b, opt: src.bool(), trail: src.bool() })
    } else { (form(src, item_kind != 0), form(src, true)) };
    let item = [".$:\"v\"", "[\"<\" ...\">\"?:\"v\" \">\"]", "item:\"i\"", "{\"x\":\"x\" \"y\":!\"y\"}"][item_kind];
    if nullable(&inner) || nested && nullable(&outer) { ctx.label("separator that can be left out"); }
    let defs = "1 item = [\"'\" ...\"'\"!:\"v\" \"'\"]\n2 sep = .r!(\"é\")\n";
    // Separators that are part of the data.
    let named = !nested && !nullable(&inner) && src.chance(1, 4);
    let defs = if named { format!("{}4 by = {}\n", defs, inner.by.0) } else { defs.to_string() };
    let bracket = |l: String| if direct { l } else { format!("[\"(\" {} \")\"]", l) };
    let rule = if nested { list_rule(&outer, &bracket(list_rule(&inner, item))) } else if named { list_rule(&Form { by: ("by:\"sep\"", inner.by.1), opt: inner.opt, trail: inner.trail }, item) } else { list_rule(&inner, item) };
    // At the end of the text or before something else.
    let closed = src.bool();
    let g = format!("{}3 doc = {}", defs, if closed { format!("[\"é(\" {} \")\"]", rule) } else { rule });
    ctx.show(format!("grammar:\n{}", g));
    let mut want: Vec<String> = vec![];
    let mut items = |src: &mut Src, n: usize| -> Vec<String> {
        (0..n).map(|_| match item_kind {
            0 => { let v = src.below(100); want.push(format!("{}", v)); format!("{}", v) }
            1 => { let v = *src.pick(&["", "a", "é", ">"]); let v = if v == ">" { "," } else { v }; want.push(v.into()); format!("<{}>", v) }
            2 => { let v = *src.pick(&["a", "日", ",", "ab"]); want.push(v.into()); format!("'{}'", v) }
            _ => { let v = *src.pick(&["x", "y"]); want.push(format!("{}:{}", v, v == "x")); v.into() }
        }).collect()
    };
    let mut text = String::new();
    let mut ok = true;
    let mut seps = 0;
    if nested {
        let n = src.weighted(&[2, 3, 4, 2]);
        let mut printed = vec![];
        for _ in 0..n {
            let k = src.weighted(&[if direct { 0 } else { 2 }, 3, 4, 2]);
            let it = items(src, k);
            let mut t = String::new();
            if !direct { t.push('('); }
            ok &= print_list(&inner, &it, src, &mut t, ctx);
            if !direct { t.push(')'); }
            printed.push(t);
        }
        ok &= print_list(&outer, &printed, src, &mut text, ctx);
        ctx.label("nested lists");
    } else {
        let mut n = src.weighted(&[2, 3, 4, 3, 2, 1]);
        if src.chance(1, 800) { n += src.magnitude(2_000); ctx.label("many items"); }
        let it = items(src, n);
        ok &= print_list(&inner, &it, src, &mut text, ctx);
        if let Some(last) = it.last() { seps = it.len() - 1 + if text.ends_with(last.as_str()) { 0 } else { 1 }; }
    }
    if closed { text = format!("é({})", text); }
    ctx.show(format!("grammar:\n{}\ndocument: {:?}", g, text));
    let s = compiled(&g)?;
    let (r, d) = lib_parse_default(&s, &text)?;
    ensure!(r.is_ok() == ok, "the list is {}valid, result {:?}\n  {}", if ok { "" } else { "not " }, r, show_items(&d));
    if ok {
        let got: Vec<String> = d.iter().filter_map(|x| match &x.data {
            MetaData::F64(_, v) => Some(format!("{}", v)),
            MetaData::String(_, v) => Some(v.to_string()),
            MetaData::Bool(n, v) => Some(format!("{}:{}", n, v)),
            _ => None,
        }).collect();
        ensure!(got == want, "read {:?}, written {:?}", got, want);
        if named {
            let n = d.iter().filter(|x| matches!(&x.data, MetaData::StartNode(n) if &***n == "sep")).count();
            let e = d.iter().filter(|x| matches!(&x.data, MetaData::EndNode(n) if &***n == "sep")).count();
            ensure!(n == seps && e == seps, "data of {} separators ({} ends), written {}", n, e, seps);
            ctx.label("data of separators");
        }
    }
    ctx.label(if ok { "accepted" } else { "rejected" });
    let shown = ctx.shown.clone();
    ctx.eval(text.len() >= 2, key(&[&g, &text]), || shown);
    Ok(())
}

pub fn pinned_trailing() -> Verdict {
    for (f, opt, trail) in [("?", true, false), ("?.", true, true), ("!", false, false), ("!.", false, true)] {
        let s = compiled(&format!("1 a = .s{}({} .$:\"v\")", f, quote(",")))?;
        for (t, ok) in [("", opt), ("1", true), ("1,2", true), ("1,2,", trail), ("1,", trail), (",", false), ("1,,2", false)] {
            let (r, _) = lib_parse_default(&s, t)?;
            ensure!(r.is_ok() == ok, ".s{} on {:?}: {:?}", f, t, r);
        }
    }
    Ok(())
}
