//! Large grammars and documents: many items, long tokens, far offsets, many rules, deep nesting.
//! Few choices are made; sizes are spread evenly over orders of magnitude.

use crate::engine::{Cheap, Src};
use crate::gram::*;
use crate::textgen::*;

pub struct Large { pub g: Grammar, pub alpha: Vec<String>, pub text: String, pub kind: &'static str }

fn p(s: &str) -> Option<String> { Some(s.into()) }
fn until(any: &str, opt: bool, prop: &str) -> R { R::Until { ws: false, any: any.into(), opt, prop: p(prop) } }

/// A rule of an item and texts of items, none of which runs into the next one.
fn item(src: &mut Src) -> (R, Vec<String>, bool) {
    let num = R::Num { us: src.bool(), prop: p("n") };
    let (r, texts, open): (R, Vec<&str>, bool) = match src.below(8) {
        0 => (tagp("a", "a"), vec!["a"], false),
        1 => (R::Seq(vec![tag("<"), until(">", true, "v"), tag(">")]), vec!["<>", "<v>", "<é日>", "<a b>", "<\n>"], false),
        2 => (R::Text { empty: true, prop: p("t") }, vec!["\"\"", "\"a\"", "\"\\u00e9\"", "\"日\\n\""], false),
        3 => (R::Sel(vec![tagp("a", "a"), R::Tag { text: "b".into(), not: false, inv: true, prop: p("b") },
                R::Seq(vec![tag("c"), R::Num { us: false, prop: p("n") }, tag(";")])]), vec!["a", "b", "c1;", "c-2.5e3;"], false),
        4 => (num, vec!["1", "-20", "3.5", "0"], true),
        5 => (R::Seq(vec![tag("x"), R::Opt(Box::new(tagp("y", "y"))), R::Ws(true)]), vec!["x", "xy", "x ", "xy\u{3000}"], false),
        6 => (R::Seq(vec![R::Not(Box::new(R::Seq(vec![tag("z")]))), R::Sel(vec![R::Seq(vec![tagp("é", "e"), tag("!")]), tagp("é", "f")])]), vec!["é!", "é"], false),
        _ => (R::Seq(vec![tag("("), R::Sep { by: Box::new(tag(",")), rule: Box::new(tagp("q", "q")), opt: true, trail: true }, tag(")")]), vec!["()", "(q)", "(q,q)", "(q,)"], false),
    };
    (r, texts.into_iter().map(|s| s.to_string()).collect(), open)
}

fn repeat(texts: &[String], n: usize, by: &[&str], src: &mut Src) -> String {
    let mut s = Cheap::new(src);
    let mut o = String::new();
    for i in 0..n {
        if i > 0 && !by.is_empty() { o.push_str(by[s.below(by.len())]); }
        o.push_str(&texts[s.below(texts.len())]);
    }
    o
}

fn node(id: usize, name: &str, rule: R) -> NodeDef { NodeDef { id, name: name.into(), rule } }

fn chars_of(n: usize, cs: &[&str], src: &mut Src) -> String {
    let mut s = Cheap::new(src);
    (0..n).map(|_| cs[s.below(cs.len())]).collect()
}

pub fn large(src: &mut Src) -> Large {
    let big = src.magnitude(30_000);
    let kind = src.weighted(&[2, 2, 2, 2, 2, 2, 7, 2, 2, 2]);
    let (it, texts, open) = item(src);
    let it = if open { R::Seq(vec![it, tag(" ")]) } else { it };
    let spaced: Vec<String> = if open { texts.iter().map(|t| format!("{} ", t)).collect() } else { texts.clone() };
    let rep = |r: R, opt: bool| R::Rep { rule: Box::new(r), opt };
    let named = |n: &str, pr: &str| R::Ref { name: n.into(), prop: p(pr) };
    let (mut nodes, mut text, label): (Vec<NodeDef>, String, &'static str) = match kind {
        0 => (vec![node(1, "n0", rep(it, src.bool()))], repeat(&spaced, big, &[], src), "many items"),
        1 => (vec![node(1, "n0", it), node(2, "n1", rep(named("n0", "item"), src.bool()))], repeat(&spaced, big, &[], src), "many nodes of data"),
        2 => {
            // A long attempt that is given up.
            let first = if src.bool() { rep(it.clone(), false) } else { rep(R::Seq(vec![it.clone()]), true) };
            let first = R::Seq(vec![named("n0", "gone"), first, tag("!!")]);
            let rest = rep(it.clone(), true);
            let r = match src.below(3) {
                0 => R::Sel(vec![first, rest]),
                1 => R::Seq(vec![R::Opt(Box::new(first)), rest]),
                _ => R::Seq(vec![R::Not(Box::new(first)), rest]),
            };
            (vec![node(1, "n0", it), node(2, "n1", r)], repeat(&spaced, big, &[], src), "long attempt given up")
        }
        3 => {
            let trail = src.bool();
            let by = src.bool();
            let (rule, bys): (R, &[&str]) = if by { (R::Seq(vec![R::Ws(true), tag(","), R::Ws(true)]), &[",", " , ", ",\n"]) } else { (tag(","), &[","]) };
            let r = R::Sep { by: Box::new(rule), rule: Box::new(if src.bool() { it.clone() } else { named("n0", "i") }), opt: src.bool(), trail };
            let mut t = repeat(&spaced, big, bys, src);
            if src.chance(1, 3) { t.push(','); }
            (vec![node(1, "n0", it), node(2, "n1", r)], t, "long separated list")
        }
        4 => {
            let indent = src.bool();
            let r = R::Lines { rule: Box::new(if src.bool() { it.clone() } else { named("n0", "i") }), indent };
            let ends: &[&str] = match src.below(3) { 0 => &["\n"], 1 => &["\n", "\n\n", "\r\n"], _ => &["\n\n\n\n", "\n \n", "\n"] };
            let mut t = repeat(&spaced, big, ends, src);
            if src.bool() { t.push('\n'); }
            (vec![node(1, "n0", it), node(2, "n1", r)], t, "many lines")
        }
        5 => {
            // Indention that grows.
            let depth = big % 120;
            let step = src.int(1, 4);
            let r = |first: R| R::Seq(vec![first, R::Lines { rule: Box::new(named("n0", "sub")), indent: true }]);
            let mut t = String::new();
            let mut s = Cheap::new(src);
            let mut w = vec![];
            for i in 0..depth {
                t.push_str(&" ".repeat(i * step));
                t.push_str("k\n");
                w.push(i * step);
            }
            for _ in 0..big % 50 {
                if w.is_empty() { break; }
                t.push_str(&" ".repeat(w[s.below(w.len())]));
                t.push_str("k\n");
            }
            (vec![node(1, "n0", r(tagp("k", "k"))), node(2, "n1", R::Lines { rule: Box::new(named("n0", "top")), indent: true })], t, "deep indention")
        }
        6 => {
            // One long token.
            let cs: &[&str] = match src.below(3) { 0 => &["a"], 1 => &["a", "b", "é"], _ => &["日", "\u{1F600}", "z"] };
            let long = chars_of(big + 1, cs, src);
            let (r, t) = match src.below(6) {
                0 => (tagp(&long, "long"), long),
                1 => (until("\"", false, "long"), long),
                2 => (R::Until { ws: true, any: "\"".into(), opt: true, prop: p("long") }, long),
                3 => (R::Text { empty: false, prop: p("long") }, format!("\"{}{}\"", long, if src.bool() { "\\u00e9\\n" } else { "" })),
                4 => (R::Ws(false), chars_of(big + 1, &[" ", "\n", "\u{3000}", "\t"], src)),
                _ => (R::Num { us: true, prop: p("long") }, match src.below(3) {
                    0 => format!("{}1", "0".repeat(big)),
                    1 => format!("0.{}", chars_of(big + 1, &["0", "7", "3"], src)),
                    _ => chars_of(big % 330 + 1, &["1", "0", "9", "_"], src),
                }),
            };
            let twice = src.chance(1, 3);
            let r = if twice { R::Seq(vec![r.clone(), tag("\""), r, tagp(";", "end")]) } else { R::Seq(vec![r, R::Opt(Box::new(tagp("\"", "end")))]) };
            (vec![node(1, "n0", r)], if twice { format!("{}\"{};", t, t) } else { t }, "long token")
        }
        7 => {
            // Many rules.
            let n = big % 600 + 1;
            let mut s = Cheap::new(src);
            if src.bool() {
                let mut t = String::new();
                let v = (0..n).map(|i| {
                    let k = s.below(texts.len());
                    match s.below(3) {
                        0 => { t.push_str(&spaced[k]); it.clone() }
                        1 => { let x = format!("{},", i); t.push_str(&x); tagp(&x, "t") }
                        _ => { if s.below(2) == 0 { t.push('?'); } R::Opt(Box::new(tagp("?", "o"))) }
                    }
                }).collect();
                (vec![node(1, "n0", R::Seq(v))], t, "many rules in a row")
            } else {
                let forms = src.below(3);
                let alts: Vec<String> = (0..n).map(|i| match forms {
                    0 => format!("{}:", i),
                    1 => char::from_u32(0x100 + i as u32).unwrap().to_string(),
                    _ => format!("{}{}", (b'a' + (i % 26) as u8) as char, i),
                }).collect();
                let v = alts.iter().map(|a| tagp(a, a)).collect();
                let m = src.magnitude(2000);
                (vec![node(1, "n0", rep(R::Sel(v), true))], repeat(&alts, m, &[], src), "many alternatives")
            }
        }
        8 => {
            // Many nodes, each of which refers to the next.
            let n = big % 250 + 1;
            let mut t = String::new();
            let mut nodes = vec![];
            let mut s = Cheap::new(src);
            for i in 0..n {
                let mut v = vec![tagp(&format!("{}", i % 10), "d")];
                if i > 0 {
                    v.push(named(&format!("m{}", i - 1), &format!("p{}", i)));
                    if s.below(4) == 0 { v.push(R::Opt(Box::new(R::Seq(vec![tag("!"), named(&format!("m{}", s.below(i)), "again")])))); }
                }
                nodes.push(node(i + 1, &format!("m{}", i), R::Seq(v)));
            }
            for i in (0..n).rev() { t.push_str(&format!("{}", i % 10)); }
            (nodes, t, "many nodes")
        }
        _ => {
            // Deep nesting.
            let n = big % 500;
            let form = src.below(3);
            let body = match form {
                0 => R::Opt(Box::new(named("n0", "in"))),
                1 => rep(named("n0", "in"), true),
                _ => R::Sel(vec![named("n0", "in"), tagp("x", "x")]),
            };
            let r = R::Seq(vec![tag("("), body, tag(")")]);
            let t = format!("{}{}{}", "(".repeat(n + 1), if form == 2 { "x" } else if form == 1 { "()" } else { "" }, ")".repeat(n + 1));
            (vec![node(1, "n0", r)], t, "deep nesting")
        }
    };
    // Everything far from the start of the text.
    if src.chance(1, 3) {
        let n = src.magnitude(100_000);
        let last = nodes[nodes.len() - 1].name.clone();
        let id = nodes.len() + 1;
        let pre = until("\u{1}", true, "front");
        nodes.push(node(id, "far", R::Seq(vec![pre, tag("\u{1}"), if src.bool() { named(&last, "back") } else { refer(&last) }])));
        text = format!("{}\u{1}{}", chars_of(n, &["\u{2}", "é", "\n"], src), text);
    }
    if src.chance(1, 4) {
        // At the end or close to it.
        match src.below(3) {
            0 => text.push('?'),
            1 => { text.pop(); }
            _ => { let mut i = text.len().saturating_sub(src.below(12)); while !text.is_char_boundary(i) { i -= 1; } text.insert(i, '\u{3}'); }
        }
    }
    let alpha = vec!["a".into(), ",".into(), "\n".into(), "!".into(), ")".into()];
    let g = Grammar { nodes };
    if src.chance(1, 8) {
        let i = src.magnitude(text.len());
        let mut i = i;
        while !text.is_char_boundary(i) { i -= 1; }
        let mut tail = text.split_off(i);
        mutate(&mut text, src, &alpha);
        text.push_str(&tail);
        tail.clear();
    }
    Large { g, alpha, text, kind: label }
}
