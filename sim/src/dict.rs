//! Input hints from the code under test: the string, character and integer literals of
//! /repo/src that the committed baseline (`literals.txt`) does not list.  The workload gives them
//! a little weight (names, strings, stray bytes, lengths, counts), so that behaviour hung on a
//! particular word or size is reached.  Nothing is judged by them, and a plan holds its texts in
//! full, so a replay does not depend on them.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub chars: Vec<char>,
    pub ints: Vec<u64>,
}
static mut DICT: Dict = Dict { words: vec![], chars: vec![], ints: vec![] };

pub fn d() -> &'static Dict {
    unsafe { &*std::ptr::addr_of!(DICT) }
}
pub fn any() -> bool {
    let d = d();
    !(d.words.is_empty() && d.chars.is_empty() && d.ints.is_empty())
}

/// A word of the dictionary, if there is one and chance has it.
pub fn word(r: &mut Rng, pct: u64) -> Option<String> {
    let d = d();
    let n = d.words.len() + d.chars.len();
    if n == 0 || !r.pct(pct) {
        return None;
    }
    let k = r.idx(n);
    Some(if k < d.words.len() { d.words[k].clone() } else { d.chars[k - d.words.len()].to_string() })
}
/// A size next to one of the dictionary's integers, within lo..=hi.
pub fn size(r: &mut Rng, lo: u64, hi: u64, pct: u64) -> Option<u64> {
    let d = d();
    if d.ints.is_empty() || !r.pct(pct) {
        return None;
    }
    for _ in 0..4 {
        let n = *r.pick(&d.ints);
        let n = match r.below(6) {
            0 => n.saturating_sub(1),
            1 | 2 => n + 1,
            3 => n + r.below(n / 4 + 2),
            4 => n * 2,
            _ => n,
        };
        if n >= lo && n <= hi {
            return Some(n);
        }
    }
    None
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Tok {
    Str(String),
    Chr(char),
    Int(u64),
    Id(String),
    P(char),
}

fn lex(src: &str) -> Vec<Tok> {
    let c: Vec<char> = src.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let esc = |i: &mut usize| -> Option<char> {
        // at the character after a backslash
        let x = at(*i);
        *i += 1;
        Some(match x {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '0' => '\0',
            'x' => {
                let h: String = (0..2).map(|k| at(*i + k)).collect();
                *i += 2;
                char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
            }
            'u' => {
                let mut h = String::new();
                while at(*i) != '}' && *i < c.len() {
                    if at(*i).is_ascii_hexdigit() {
                        h.push(at(*i));
                    }
                    *i += 1;
                }
                *i += 1;
                char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
            }
            x => x,
        })
    };
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == 'r' && (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) {
            let mut h = 0;
            i += 1;
            while at(i) == '#' {
                h += 1;
                i += 1;
            }
            i += 1;
            let mut s = String::new();
            while i < c.len() {
                if c[i] == '"' && (0..h).all(|k| at(i + 1 + k) == '#') {
                    break;
                }
                s.push(c[i]);
                i += 1;
            }
            i += 1 + h;
            o.push(Tok::Str(s));
        } else if x == 'b' && (at(i + 1) == '"' || at(i + 1) == '\'') {
            i += 1;
        } else if x == '"' {
            i += 1;
            let mut s = String::new();
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    if at(i) == '\n' || at(i) == '\r' {
                        while i < c.len() && c[i].is_whitespace() {
                            i += 1;
                        }
                    } else if let Some(k) = esc(&mut i) {
                        s.push(k);
                    }
                } else {
                    s.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            o.push(Tok::Str(s));
        } else if x == '\'' {
            if at(i + 1) == '\\' {
                i += 2;
                if let Some(k) = esc(&mut i) {
                    o.push(Tok::Chr(k));
                }
                i += 1;
            } else if at(i + 2) == '\'' {
                o.push(Tok::Chr(at(i + 1)));
                i += 3;
            } else {
                i += 1; // a lifetime
            }
        } else if x.is_ascii_digit() {
            let (radix, skip) = match (x, at(i + 1)) {
                ('0', 'x') => (16, 2),
                ('0', 'b') => (2, 2),
                ('0', 'o') => (8, 2),
                _ => (10, 0),
            };
            i += skip;
            let mut v: u64 = 0;
            while at(i).is_digit(radix) || at(i) == '_' {
                if let Some(k) = at(i).to_digit(radix) {
                    v = v.saturating_mul(radix as u64).saturating_add(k as u64);
                }
                i += 1;
            }
            let mut suf = String::new();
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                suf.push(at(i));
                i += 1;
            }
            o.push(Tok::Int(v));
            if suf == "u8" || suf == "u16" || suf == "i8" || suf == "i16" {
                o.push(Tok::Id(suf));
            }
        } else if x.is_alphabetic() || x == '_' {
            let mut s = String::new();
            while at(i).is_alphanumeric() || at(i) == '_' {
                s.push(at(i));
                i += 1;
            }
            o.push(Tok::Id(s));
        } else {
            o.push(Tok::P(x));
            i += 1;
        }
    }
    o
}

/// Leaves out what follows `#[cfg(test)]`: in this repository the tests end each file.
fn body(src: &str) -> &str {
    src.find("#[cfg(test)]").map_or(src, |k| &src[..k])
}

type Bag = BTreeMap<String, usize>;
fn collect(dir: &std::path::Path, bag: &mut Bag) {
    let mut fs: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    fs.sort();
    for f in fs {
        if f.is_dir() {
            collect(&f, bag);
        } else if f.extension().is_some_and(|e| e == "rs") {
            let s = std::fs::read_to_string(&f).unwrap_or_default();
            let t = lex(body(&s));
            let mut add = |s: String| *bag.entry(s).or_insert(0) += 1;
            for (i, k) in t.iter().enumerate() {
                match k {
                    Tok::Str(s) => add(format!("s {s:?}")),
                    Tok::Chr(c) => add(format!("c {:x}", *c as u32)),
                    Tok::Int(n) => {
                        add(format!("i {n}"));
                        // simple products and shifts
                        match (t.get(i + 1), t.get(i + 2), t.get(i + 3)) {
                            (Some(Tok::P('*')), Some(Tok::Int(m)), _) => add(format!("i {}", n.saturating_mul(*m))),
                            (Some(Tok::P('<')), Some(Tok::P('<')), Some(Tok::Int(m))) if *m < 40 => add(format!("i {}", n << m)),
                            _ => {}
                        }
                    }
                    Tok::Id(s) => match s.as_str() {
                        "u8" | "i8" | "u16" | "i16" => add(format!("t {s}")),
                        _ => {}
                    },
                    Tok::P(_) => {}
                }
            }
        }
    }
}

const BASE: &str = include_str!("literals.txt");

/// What the baseline file should contain.
pub fn dump(src: &str) -> String {
    let mut bag = Bag::new();
    collect(std::path::Path::new(src), &mut bag);
    bag.iter().map(|(k, n)| format!("{n} {k}\n")).collect()
}

pub fn mine(src: &str) {
    let mut bag = Bag::new();
    collect(std::path::Path::new(src), &mut bag);
    let mut base = Bag::new();
    for l in BASE.lines() {
        if let Some((n, k)) = l.split_once(' ') {
            base.insert(k.to_string(), n.parse().unwrap_or(0));
        }
    }
    let mut words = BTreeSet::new();
    let mut chars = BTreeSet::new();
    let mut ints = BTreeSet::new();
    for (k, n) in &bag {
        if base.get(k).copied().unwrap_or(0) >= *n {
            continue;
        }
        let (t, x) = k.split_once(' ').unwrap_or((k, ""));
        match t {
            "s" => {
                if let Some(Tok::Str(s)) = lex(x).first() {
                    if !s.is_empty() && s.len() <= 64 {
                        words.insert(s.clone());
                        // the pieces of a message are worth nothing, but short words may be
                        for w in s.split([' ', '{', '}']) {
                            if w.len() > 1 && w.len() < 20 && words.len() < 200 {
                                words.insert(w.to_string());
                            }
                        }
                    }
                }
            }
            "c" => {
                if let Some(c) = u32::from_str_radix(x, 16).ok().and_then(char::from_u32) {
                    chars.insert(c);
                }
            }
            "i" => {
                if let Ok(n) = x.parse::<u64>() {
                    if n >= 2 && n <= 4_000_000_000 {
                        ints.insert(n);
                    }
                    // an integer may stand for a character
                    if n > 0x20 && n < 0x11_0000 && x.len() > 1 {
                        if let Some(c) = char::from_u32(n as u32) {
                            if n < 128 || n > 160 && n != 256 && n != 512 && n % 100 != 0 {
                                chars.insert(c);
                            }
                        }
                    }
                }
            }
            "t" => {
                ints.insert(if x.ends_with("16") { 65_536 } else { 256 });
            }
            _ => {}
        }
    }
    unsafe {
        DICT = Dict {
            words: words.into_iter().take(200).collect(),
            chars: chars.into_iter().take(100).collect(),
            ints: ints.into_iter().take(100).collect(),
        };
    }
}
