//! Literals found in the library's sources. They only guide generation: names, texts, characters, sizes and numbers which the
//! code treats in a special way are more likely to be tried. Literals which are not in the sources the checks were made
//! for (`dict-base.txt`) come first.

use crate::engine::Src;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

pub struct Dict { words: Vec<String>, numbers: Vec<f64>, new_words: Vec<String>, new_numbers: Vec<f64> }

static DICT: OnceLock<Dict> = OnceLock::new();
/// Whether a case used the dictionary.
pub static USED: AtomicBool = AtomicBool::new(false);

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        if p.is_dir() { files(&p, out) } else if p.extension().map(|x| x == "rs").unwrap_or(false) { out.push(p) }
    }
}

/// The string, character and number literals of a source text, up to its unit tests.
fn literals(s: &str, words: &mut BTreeSet<String>, numbers: &mut BTreeSet<u64>) {
    let s = match s.find("#[cfg(test)]\nmod ") { Some(i) => &s[..i], None => s };
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut number = |x: f64| { if x.is_finite() { numbers.insert(x.abs().to_bits()); } };
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => while i < c.len() && c[i] != '\n' { i += 1; },
            '/' if c.get(i + 1) == Some(&'*') => { i += 2; while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { i += 1; } i += 2; }
            '"' => {
                let mut w = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' { i = one_char(&c, i, &mut w); }
                i += 1;
                words.insert(w);
            }
            'r' if (i == 0 || !c[i - 1].is_alphanumeric()) && (c.get(i + 1) == Some(&'"') || c.get(i + 1) == Some(&'#')) => {
                let mut n = 0;
                i += 1;
                while c.get(i) == Some(&'#') { n += 1; i += 1; }
                if c.get(i) != Some(&'"') { continue; }
                i += 1;
                let start = i;
                while i < c.len() && !(c[i] == '"' && c[i + 1..].iter().take(n).filter(|&&x| x == '#').count() == n) { i += 1; }
                words.insert(c[start..i.min(c.len())].iter().collect());
                i += 1 + n;
            }
            '\'' => {
                let mut w = String::new();
                let j = one_char(&c, i + 1, &mut w);
                // Otherwise a lifetime.
                if c.get(j) == Some(&'\'') { words.insert(w); i = j + 1; } else { i += 1; }
            }
            x if x.is_alphabetic() || x == '_' => {
                let start = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
                let w: String = c[start..i].iter().collect();
                match &w[..] {
                    "u8" | "i8" => for x in [127, 128, 255, 256] { number(x as f64) },
                    "u16" | "i16" => for x in [32767, 32768, 65535, 65536] { number(x as f64) },
                    _ => {}
                }
            }
            x if x.is_ascii_digit() => {
                let start = i;
                let hex = x == '0' && c.get(i + 1).map(|x| "xob".contains(*x)).unwrap_or(false);
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_'
                    || !hex && c[i] == '.' && c.get(i + 1).map(|x| x.is_ascii_digit()).unwrap_or(false)
                    || !hex && "+-".contains(c[i]) && "eE".contains(c[i - 1])) { i += 1; }
                let t: String = c[start..i].iter().filter(|&&x| x != '_').collect();
                let t = if hex { t } else { t.trim_end_matches(|x: char| x.is_alphabetic()).to_string() };
                let cut = |t: &str| ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f64", "f32"].iter()
                    .find_map(|x| t.strip_suffix(x)).unwrap_or(t).to_string();
                let t = cut(&t);
                let v = match (t.get(..2), t.get(2..)) {
                    (Some("0x"), Some(r)) => u64::from_str_radix(r, 16).ok().map(|x| x as f64),
                    (Some("0b"), Some(r)) => u64::from_str_radix(r, 2).ok().map(|x| x as f64),
                    (Some("0o"), Some(r)) => u64::from_str_radix(r, 8).ok().map(|x| x as f64),
                    _ => {
                        // `32usize` leaves `32` above, `32u8` has to lose its suffix first.
                        let t: String = c[start..i].iter().filter(|&&x| x != '_').collect();
                        cut(&t).parse().ok()
                    }
                };
                if let Some(v) = v {
                    number(v);
                    // Shifts: `1 << 12`.
                    let rest: String = c[i..].iter().take(12).collect();
                    if let Some(r) = rest.trim_start().strip_prefix("<<") {
                        let k: String = r.trim_start().chars().take_while(|x| x.is_ascii_digit()).collect();
                        if let Ok(k) = k.parse::<u32>() { if k < 53 { number(v * (1u64 << k) as f64); } }
                    }
                }
            }
            _ => i += 1,
        }
    }
}

fn one_char(c: &[char], i: usize, w: &mut String) -> usize {
    if c.get(i) != Some(&'\\') { if let Some(&x) = c.get(i) { w.push(x); } return i + 1; }
    match c.get(i + 1) {
        Some('n') => w.push('\n'),
        Some('r') => w.push('\r'),
        Some('t') => w.push('\t'),
        Some('0') => w.push('\0'),
        Some('x') => {
            let h: String = c.iter().skip(i + 2).take(2).collect();
            w.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            return i + 4;
        }
        Some('u') => {
            let h: String = c.iter().skip(i + 3).take_while(|&&x| x != '}').collect();
            w.extend(u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32));
            return i + 4 + h.chars().count();
        }
        Some('\n') => {
            let mut j = i + 2;
            while c.get(j).map(|x| x.is_whitespace()).unwrap_or(false) { j += 1; }
            return j;
        }
        Some(&x) => w.push(x),
        None => {}
    }
    i + 2
}

fn of_sources() -> (BTreeSet<String>, BTreeSet<u64>) {
    let mut fs = vec![];
    files(std::path::Path::new("/repo/src"), &mut fs);
    fs.sort();
    let (mut w, mut n, mut unused) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for f in fs {
        if f.file_name().map(|x| x == "verif.rs").unwrap_or(false) { continue; }
        // The numbers in the built-in rules are debug ids.
        let ids = f.ends_with("bootstrap/rules.rs");
        if let Ok(s) = std::fs::read_to_string(&f) { literals(&s, &mut w, if ids { &mut unused } else { &mut n }); }
    }
    w.retain(|x| !x.is_empty() && x.chars().count() <= 60);
    (w, n)
}

/// One literal per line, hexadecimal: `w` words, `n` numbers.
fn encode(w: &BTreeSet<String>, n: &BTreeSet<u64>) -> Vec<String> {
    w.iter().map(|w| format!("w{}", w.bytes().map(|b| format!("{:02x}", b)).collect::<String>()))
        .chain(n.iter().map(|n| format!("n{:x}", n))).collect()
}

fn decode<'a, I: Iterator<Item = &'a str>>(lines: I) -> (BTreeSet<String>, BTreeSet<u64>) {
    let (mut w, mut n) = (BTreeSet::new(), BTreeSet::new());
    for l in lines {
        if let Some(h) = l.strip_prefix('w') {
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            w.extend(String::from_utf8(b).ok());
        } else if let Some(h) = l.strip_prefix('n') {
            n.extend(u64::from_str_radix(h, 16).ok());
        }
    }
    (w, n)
}

/// All literals of the sources, to be kept in `dict-base.txt`.
pub fn dump() -> String { let (w, n) = of_sources(); encode(&w, &n).join("\n") + "\n" }

/// The literals in use, for replay files.
pub fn in_use() -> String {
    let (w, n) = match std::env::var("HARNESS_DICT") { Ok(s) => decode(s.split(' ')), Err(_) => of_sources() };
    encode(&w, &n).join(" ")
}

fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let (w, n) = match std::env::var("HARNESS_DICT") { Ok(s) => decode(s.split(' ')), Err(_) => of_sources() };
        let (bw, bn) = decode(include_str!("../dict-base.txt").lines());
        Dict {
            new_words: w.difference(&bw).cloned().collect(),
            new_numbers: n.difference(&bn).map(|&x| f64::from_bits(x)).collect(),
            words: w.into_iter().collect(),
            numbers: n.into_iter().map(f64::from_bits).collect(),
        }
    })
}

pub fn sizes() -> (usize, usize) { let d = dict(); (d.words.len(), d.numbers.len()) }

fn choose<'a, T>(src: &mut Src, all: &'a [T], new: &'a [T]) -> Option<&'a T> {
    if all.is_empty() { return None; }
    USED.store(true, Ordering::Relaxed);
    Some(if !new.is_empty() && src.chance(3, 4) { src.pick(new) } else { src.pick(all) })
}

impl Src {
    /// One time in `one_of`, a word.
    pub fn known(&mut self, one_of: u64) -> Option<&'static str> {
        if !self.chance(1, one_of) { return None; }
        let d = dict();
        choose(self, &d.words, &d.new_words).map(|w| &w[..])
    }

    /// One time in `one_of`, a word that can be the name of a node or string.
    pub fn known_name(&mut self, one_of: u64) -> Option<String> {
        let w: String = self.known(one_of)?.chars().filter(|&c| c.is_alphanumeric() || c == '-' || c == '_').collect();
        let w = w.trim_start_matches('_').to_string();
        if w.is_empty() { None } else { Some(w) }
    }

    /// One time in `one_of`, a number or one next to it.
    pub fn known_number(&mut self, one_of: u64) -> Option<f64> {
        if !self.chance(1, one_of) { return None; }
        let d = dict();
        let x = *choose(self, &d.numbers, &d.new_numbers)?;
        Some(match self.weighted(&[4, 2, 2, 1]) { 0 => x, 1 => x + 1.0, 2 => x - 1.0, _ => -x })
    }

    /// One time in `one_of`, a size up to `max`.
    pub fn known_size(&mut self, one_of: u64, max: usize) -> Option<usize> {
        let x = self.known_number(one_of)?;
        if x >= 0.0 && x <= max as f64 && x.fract() == 0.0 { Some(x as usize) } else { None }
    }
}
