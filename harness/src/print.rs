//! Prints grammars in the meta language.

use crate::engine::Src;
use crate::gram::*;

/// Quotes a literal the plain way.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One random spelling of a character inside a JSON string.
pub fn spell_char(c: char, src: &mut Src, o: &mut String) {
    let short = match c {
        '"' => "\\\"", '\\' => "\\\\", '/' => "\\/", '\u{8}' => "\\b", '\u{c}' => "\\f",
        '\n' => "\\n", '\r' => "\\r", '\t' => "\\t", _ => "",
    };
    let must = c == '"' || c == '\\';
    let bmp = (c as u32) < 0x10000;
    match src.weighted(&[5, 3, 2]) {
        0 if !must => o.push(c),
        1 if !short.is_empty() => o.push_str(short),
        2 if bmp => {
            o.push_str("\\u");
            for (i, d) in format!("{:04x}", c as u32).chars().enumerate() {
                if src.bool() && i < 4 { o.extend(d.to_uppercase()); } else { o.push(d); }
            }
        }
        _ => if must { o.push_str(short) } else { o.push(c) },
    }
}

pub fn spell(s: &str, src: &mut Src) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { spell_char(c, src, &mut o); }
    o.push('"');
    o
}

pub struct Printer<'a> {
    /// Random style, or plain.
    src: Option<&'a mut Src>,
    pub strings: Vec<(String, String)>,
    pub refs_used: usize,
    pub comments: usize,
}

const STRING_NAMES: &[&str] = &["e", "s", "opt", "é", "a-b", "1", "_", "x=", "日本", "w", "s1", "prop", "/", "+"];
const SPACES: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", " \n ", "\u{3000}", "\u{a0}", "\u{2028}", "\n\n", "\u{85}"];

impl<'a> Printer<'a> {
    pub fn plain() -> Printer<'static> { Printer { src: None, strings: vec![], refs_used: 0, comments: 0 } }
    pub fn styled(src: &'a mut Src) -> Printer<'a> { Printer { src: Some(src), strings: vec![], refs_used: 0, comments: 0 } }

    fn string_ref(&mut self, s: &str) -> String {
        self.refs_used += 1;
        let known: Vec<String> = self.strings.iter().filter(|x| x.1 == s).map(|x| x.0.clone()).collect();
        if !known.is_empty() {
            let n = match self.src { Some(ref mut src) => src.pick(&known).clone(), None => known[0].clone() };
            return format!("_{}", n);
        }
        let mut name = match self.src {
            Some(ref mut src) => match self.strings.last() {
                Some(x) if src.chance(1, 4) => near(&x.0, src),
                _ => match src.known_name(12) { Some(w) => w, None => src.pick(STRING_NAMES).to_string() },
            },
            None => "e".to_string(),
        };
        while self.strings.iter().any(|x| x.0 == name) { name.push('0'); }
        self.strings.push((name.clone(), s.into()));
        format!("_{}", name)
    }

    fn lit(&mut self, s: &str, empty_ok: bool) -> String {
        if s.is_empty() && !empty_ok { return self.string_ref(s); }
        match self.src {
            None => quote(s),
            Some(ref mut src) => {
                if src.chance(1, 4) { return self.string_ref(s); }
                let src = self.src.as_mut().unwrap();
                if src.bool() { spell(s, src) } else { quote(s) }
            }
        }
    }

    fn ws(&mut self) -> String {
        match self.src {
            None => " ".into(),
            Some(ref mut src) => {
                let mut o = String::new();
                loop {
                    o.push_str(src.pick(SPACES));
                    if !src.chance(1, 4) { return o; }
                }
            }
        }
    }

    fn wso(&mut self) -> String {
        let yes = match self.src { None => false, Some(ref mut src) => src.chance(1, 3) };
        if yes { self.ws() } else { String::new() }
    }

    fn prop(&mut self, p: &Option<String>, inv: bool) -> String {
        match p {
            None => String::new(),
            Some(p) => format!(":{}{}", if inv { "!" } else { "" }, self.lit(p, false)),
        }
    }

    pub fn rule(&mut self, r: &R) -> String {
        let flag = |b: &bool| if *b { "?" } else { "!" };
        match r {
            R::Ws(opt) => format!(".w{}", flag(opt)),
            R::Tag { text, not, inv, prop } => {
                let t = self.lit(text, false);
                let p = self.prop(prop, *inv);
                format!("{}{}{}", if *not { "!" } else { "" }, t, p)
            }
            R::Until { ws, any, opt, prop } => {
                let a = self.lit(any, true);
                let p = self.prop(prop, false);
                format!("{}{}{}{}", if *ws { ".." } else { "..." }, a, flag(opt), p)
            }
            R::Text { empty, prop } => { let p = self.prop(prop, false); format!(".t{}{}", flag(empty), p) }
            R::Num { us, prop } => { let p = self.prop(prop, false); format!(".${}{}", if *us { "_" } else { "" }, p) }
            R::Sel(v) | R::Seq(v) => {
                let (a, b) = if let R::Sel(_) = r { ("{", "}") } else { ("[", "]") };
                let mut o = String::from(a);
                o.push_str(&self.wso());
                for (i, r) in v.iter().enumerate() {
                    if i > 0 { o.push_str(&self.ws()); }
                    o.push_str(&self.rule(r));
                }
                o.push_str(&self.wso());
                o.push_str(b);
                o
            }
            R::Sep { by, rule, opt, trail } => {
                let (a, b) = (self.rule(by), self.rule(rule));
                format!(".s{}{}({}{}{}{}{})", flag(opt), if *trail { "." } else { "" },
                    self.wso(), a, self.ws(), b, self.wso())
            }
            R::Rep { rule, opt } => format!(".r{}({})", flag(opt), self.rule(rule)),
            R::Lines { rule, indent } => {
                let a = self.rule(rule);
                format!(".l{}({}{}{})", if *indent { "+" } else { "" }, self.wso(), a, self.wso())
            }
            R::Ref { name, prop } => { let p = self.prop(prop, false); format!("{}{}", name, p) }
            R::Opt(r) => format!("?{}", self.rule(r)),
            R::Not(r) => format!("!{}", self.rule(r)),
        }
    }

    fn between(&mut self) -> String {
        // What stands between two definitions: at least one line end.
        let mut o = String::new();
        if self.src.is_none() { return "\n".into(); }
        o.push_str(&self.pad());
        o.push('\n');
        o.push_str(&self.comments());
        o
    }

    fn pad(&mut self) -> String {
        let src = self.src.as_mut().unwrap();
        match src.weighted(&[6, 2, 1, 1, 1]) { 0 => "", 1 => "  ", 2 => "\t", 3 => "\u{3000}", _ => "\r" }.into()
    }

    /// Zero or more comments and blank lines, ending at the start of a line.
    fn comments(&mut self) -> String {
        let mut o = String::new();
        if self.src.is_none() { return o; }
        loop {
            match self.src.as_mut().unwrap().weighted(&[10, 3, 2, 2]) {
                0 => break,
                1 => { o.push_str(&self.pad()); o.push('\n'); }
                2 => {
                    self.comments += 1;
                    o.push_str(&self.pad());
                    o.push_str("//");
                    o.push_str(&line_comment(self.src.as_mut().unwrap()));
                    o.push('\n');
                }
                _ => {
                    self.comments += 1;
                    o.push_str(&self.pad());
                    o.push_str(&block_comment(self.src.as_mut().unwrap(), 3));
                    o.push_str(&self.pad());
                    o.push('\n');
                }
            }
        }
        o.push_str(&self.pad());
        o
    }

    /// Prints the whole grammar, `extra` are string definitions to add.
    pub fn grammar(&mut self, g: &Grammar, extra: &[(String, String)]) -> String {
        self.strings.extend(extra.iter().cloned());
        let mut nodes = vec![];
        for n in &g.nodes {
            let r = self.rule(&n.rule);
            nodes.push(format!("{}{}{}{}={}{}", n.id, self.ws(), n.name, self.ws(),
                if self.src.is_some() { self.wso() } else { " ".into() }, r));
        }
        // Unused definitions.
        if let Some(ref mut src) = self.src {
            if src.chance(1, 4) {
                let mut name = src.pick(STRING_NAMES).to_string();
                while self.strings.iter().any(|x| x.0 == name) { name.push('9'); }
                self.strings.push((name, "unused".into()));
            }
        }
        let mut o = self.comments();
        let defs = self.strings.clone();
        let mut all: Vec<String> = vec![];
        for (name, val) in &defs {
            let v = match self.src { None => quote(val), Some(ref mut src) => if src.bool() { spell(val, src) } else { quote(val) } };
            let sp = if self.src.is_some() { self.wso() } else { " ".into() };
            all.push(format!("_{}:{}{}", name, sp, v));
        }
        all.extend(nodes);
        for (i, d) in all.iter().enumerate() {
            if i > 0 { o.push_str(&self.between()); }
            o.push_str(d);
        }
        let last = match self.src { None => true, Some(ref mut src) => src.chance(3, 4) };
        if last {
            o.push_str(&self.between());
            // The last line needs no end.
            if let Some(ref mut src) = self.src {
                match src.weighted(&[6, 1, 1]) {
                    0 => {}
                    1 => { self.comments += 1; o.push_str("//"); o.push_str(&line_comment(src)); }
                    _ => { self.comments += 1; o.push_str(&block_comment(src, 2)); }
                }
            }
        }
        o
    }
}

fn line_comment(src: &mut Src) -> String {
    let n = src.len(5);
    (0..n).map(|_| *src.pick(&["x", " ", "*/", "/*", "//", "é", "\"", "1 a = \"b\"", "_s: \"x\"", "\t", "]", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}", "\\", "\0"])).collect()
}

/// A block comment with balanced inner block comments.
pub fn block_comment(src: &mut Src, depth: usize) -> String {
    let mut o = String::from("/*");
    let n = src.len(6);
    let mut last = '*';
    for i in 0..n {
        let piece: String = match src.weighted(&[4, 3, 2, 2, 2, if depth > 0 { 3 } else { 0 }]) {
            0 => "x".into(),
            1 => src.pick(&[" ", "\n", "\t", "\r", "\u{2028}", "\0"]).to_string(),
            2 => src.pick(&["é", "日本", "\"", "1 a = \"b\"", "_s: \"", "{[", "?!:"]).to_string(),
            3 => "*".into(),
            4 => "/".into(),
            _ => block_comment(src, depth - 1),
        };
        let first = piece.chars().next().unwrap();
        // Keep `/` and `*` from joining into comment marks by accident.
        if (i == 0 && first == '/' && piece == "/") || (last == '*' && first == '/') || (last == '/' && (first == '*' || first == '/')) {
            o.push(' ');
        }
        o.push_str(&piece);
        last = o.chars().last().unwrap();
    }
    if last == '/' { o.push(' '); }
    o.push_str("*/");
    o
}
