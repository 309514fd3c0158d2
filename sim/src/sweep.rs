//! Sweeps: one token of every length, one list of every number of items, one nest of every
//! depth, one text cut, stripped and stuttered at every token, one text at every place in a page.
use crate::gen;
use crate::plan::{Fault, Op};
use crate::rng::Rng;

/// Tokens whose length can be anything: where they stand, and what they are made of.
/// Sorts: n name, i IRI characters, s string characters, d digits, c comment, w white space,
/// e escapes, p per cent signs, t dotted name, l letters
pub const STRETCH: [(&str, u8, char, &str, &str); 45] = [
    ("iri", 0, 'i', "ASK { ?s <p> <", "> }"),
    ("subject-iri", 0, 'i', "ASK { <", "> <p> 1 }"),
    ("verb-iri", 0, 'i', "ASK { ?s <", "> 1 }"),
    ("base", 0, 'i', "BASE <", "> ASK { }"),
    ("prefix-iri", 0, 'i', "PREFIX ex: <", "> ASK { }"),
    ("prefix-decl", 0, 'n', "PREFIX ", ": <u> ASK { }"),
    ("prefix-subject", 0, 'n', "ASK { ", ":ab <p> 1 }"),
    ("prefix-verb", 0, 'n', "ASK { ?s ", ":ab 1 }"),
    ("prefix-object", 0, 'n', "ASK { ?s <p> ", ":ab }"),
    ("prefix-graph", 0, 'n', "ASK { GRAPH ", ":ab { } }"),
    ("prefix-service", 0, 'n', "ASK { SERVICE SILENT ", ":ab { } }"),
    ("prefix-from", 0, 'n', "ASK FROM ", ":ab { }"),
    ("prefix-describe", 4, 'n', "DESCRIBE ", ":ab { }"),
    ("prefix-alone", 4, 'n', "DESCRIBE ", ": { }"),
    ("local", 0, 'n', "ASK { ?s <p> ex:", " }"),
    ("local-values", 0, 'n', "ASK { VALUES ?x { ex:", " } }"),
    ("var", 0, 'n', "ASK { ?", " <p> 1 }"),
    ("dollar", 0, 'n', "ASK { $", " <p> 1 }"),
    ("select-var", 0, 'n', "SELECT ?", " { }"),
    ("as-var", 0, 'n', "SELECT (1 AS ?", ") { }"),
    ("filter-var", 0, 'n', "ASK { FILTER (?", " ) }"),
    ("values-var", 0, 'n', "ASK { VALUES ?", " { 1 } }"),
    ("double-quoted", 0, 's', "ASK { ?s <p> \"", "\" }"),
    ("single-quoted", 0, 's', "ASK { ?s <p> '", "' }"),
    ("lang", 0, 'l', "ASK { ?s <p> 'a'@", " }"),
    ("subtags", 0, 'g', "ASK { ?s <p> 'a'@en", " }"),
    ("lang-part", 0, 'l', "ASK { ?s <p> 'a'@en-", " }"),
    ("datatype", 0, 'i', "ASK { ?s <p> 'a'^^<", "> }"),
    ("datatype-name", 0, 'n', "ASK { ?s <p> 'a'^^t:", " }"),
    ("label", 3, 'n', "CONSTRUCT { _:", " <p> 1 } WHERE { }"),
    ("integer", 0, 'd', "ASK { ?s <p> 1", " }"),
    ("zeros", 0, '0', "ASK { ?s <p> ", "7 }"),
    ("fraction", 0, 'd', "ASK { ?s <p> 1.", "7 }"),
    ("exponent", 0, 'd', "ASK { ?s <p> 1e", "7 }"),
    ("limit", 0, '0', "ASK { } LIMIT ", "7"),
    ("offset", 0, 'd', "ASK { } OFFSET 7", ""),
    ("comment", 0, 'c', "ASK #", "\n{ }"),
    ("space", 0, 'w', "ASK ", "{ }"),
    ("space-inside", 0, 'w', "ASK { ?s ", "<p> 1 }"),
    ("escapes", 0, 'e', "ASK { ?s <p> '", "' }"),
    ("per-cent", 0, 'p', "ASK { ?s <p> ex:", " }"),
    ("dotted", 0, 't', "ASK { ?s <p> ex:a", " }"),
    ("separator", 0, 's', "SELECT (group_concat(?x ; separator='", "') AS ?y) { }"),
    ("unknown-word", 0, 'l', "ASK { FILTER (", " (1 ) ) }"),
    ("quad-iri", 7, 'i', "INSERT DATA { <a> <b> <", "> }"),
];
pub const FLAVOURS: u64 = 8;
fn fill(sort: char, len: usize, flavour: u64) -> String {
    let mut s = String::with_capacity(len * 2);
    for k in 0..len {
        let c = match (sort, flavour) {
            ('0', _) => '0',
            ('d', 0) => '0',
            ('d', 1) => '9',
            ('d', _) => (b'0' + (k as u64 * flavour % 10) as u8) as char,
            ('w', 0) => ' ',
            ('w', 1) => '\n',
            ('w', 2) => '\t',
            ('w', _) => [' ', '\n', '\t', '\r', ' '][k * flavour as usize % 5],
            ('e', _) => {
                s.push('\\');
                ['n', '\\', '\'', 't', 'r', '"', 'b', 'f'][(k + flavour as usize) % 8]
            }
            ('p', _) => {
                s.push('%');
                s.push((b'0' + (k % 10) as u8) as char);
                (b'A' + (flavour % 6) as u8) as char
            }
            ('t', _) => {
                s.push('.');
                (b'a' + ((k as u64 * flavour) % 26) as u8) as char
            }
            ('g', f) => {
                s.push('-');
                (b'a' + ((k as u64 * f) % 26) as u8) as char
            }
            ('l', 4) => (b'A' + (k % 26) as u8) as char,
            ('l', f) => (b'a' + ((k as u64 * f) % 26) as u8) as char,
            (_, 0) => 'x',
            (_, 1) => (b'a' + (k % 26) as u8) as char,
            (_, 2) if k % 17 == 16 => '_',
            (_, 2) => (b'a' + (k * 7 % 26) as u8) as char,
            (_, 3) if k > 0 => (b'0' + (k % 10) as u8) as char,
            (_, 3) => 'n',
            (_, 4) => ['\u{e9}', '\u{4e2d}', '\u{3b1}'][k % 3],
            (_, 5) => (b'A' + (k * 3 % 26) as u8) as char,
            // one sign of another kind at the end
            (_, 6) if k + 1 == len => if sort == 'n' { '_' } else { '\u{e9}' },
            (_, 6) => (b'a' + (k * 5 % 26) as u8) as char,
            ('i', _) => ['/', 'a', '#', 'b', '?', ':', '=', 'z'][k % 8],
            ('s', _) => ['a', ' ', '{', '#', '<', '?', ')', '.'][k % 8],
            ('c', _) => ['a', ' ', '}', '#', '"', '?', ')', '\''][k % 8],
            _ => ['a', 'B', '7', 'z', '0', 'q'][k % 6],
        };
        s.push(c);
    }
    s
}
/// The text in which the token of this kind has this many characters; where the token lies.
pub fn stretch(kind: usize, len: usize, flavour: u64) -> (u8, String, usize, usize) {
    let (_, e, sort, head, tail) = STRETCH[kind];
    let f = fill(sort, len, flavour);
    let (a, b) = (head.len(), head.len() + f.len());
    (e, format!("{head}{f}{tail}"), a, b)
}

/// Everything that is open somewhere in a text: brackets, strings and IRIs with their ends.
pub fn spans(s: &str) -> Vec<(u32, u32)> {
    let b = s.as_bytes();
    let (mut st, mut out) = (vec![], vec![]);
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'#' => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            q @ (b'"' | b'\'') => {
                let a = i;
                i += 1;
                while i < b.len() && b[i] != q {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                out.push((a as u32, (i + 1).min(b.len()) as u32));
            }
            b'<' if b.get(i + 1).map_or(false, |c| !b" =\t\n\r".contains(c)) => {
                if let Some(n) = s[i..].find('>') {
                    out.push((i as u32, (i + n + 1) as u32));
                    i += n;
                }
            }
            b'{' | b'(' | b'[' => st.push(i as u32),
            b'}' | b')' | b']' => {
                if let Some(a) = st.pop() {
                    out.push((a, i as u32 + 1));
                }
            }
            _ => {}
        }
        i += 1;
    }
    out
}

/// Where the tokens of a text begin and end, roughly: words, runs of white space, single signs.
pub fn tokens(s: &str) -> Vec<(usize, usize)> {
    let class = |c: char| {
        if c.is_alphanumeric() || c == '_' {
            1
        } else if c.is_whitespace() {
            2
        } else {
            0
        }
    };
    let mut v: Vec<(usize, usize)> = vec![];
    let mut last = 9;
    for (k, c) in s.char_indices() {
        let t = class(c);
        if t != 0 && t == last {
            v.last_mut().unwrap().1 = k + c.len_utf8();
        } else {
            v.push((k, k + c.len_utf8()));
        }
        last = t;
    }
    v
}

/// One text with each of its tokens lost, doubled, swapped with the next, or the last to arrive.
pub fn token_damage(e: u8, s: &str) -> Vec<Op> {
    let t = tokens(s);
    let mut ops = vec![];
    for (k, &(a, b)) in t.iter().enumerate() {
        let (a, b) = (a as u32, b as u32);
        let mut add = |f: Fault| {
            let mut o = Op::new(e, s);
            o.faults.push(f);
            ops.push(o);
        };
        add(Fault::Cut(b));
        add(Fault::Lose(a, b));
        add(Fault::Dup(a, b));
        if let Some(&(_, c)) = t.get(k + 1) {
            add(Fault::Swap(a, b, c as u32));
            if let Some(&(_, d)) = t.get(k + 2) {
                add(Fault::Lose(a, d as u32));
                add(Fault::Dup(a, d as u32));
            }
        }
    }
    ops
}

/// What may stand behind a token without belonging to it.
const STRAY: [&str; 22] = [
    ".", ";", ",", "?", "%", "\\", "#", "#\n", "-", "+", "*", "|", "^", "!", "=", ":", "_", "@", "\u{e9}", "\u{1f980}", "\0", "\u{a0}",
];
/// The text with a stray sign right behind each token, or before it.
pub fn stray_signs(r: &mut Rng, e: u8, s: &str) -> Vec<Op> {
    let mut ops = vec![];
    for (a, b) in tokens(s) {
        for _ in 0..3 {
            let mut o = Op::new(e, s);
            let at = if r.pct(85) { b } else { a };
            o.faults.push(Fault::Insert(at as u32, r.pick(&STRAY).as_bytes().to_vec()));
            if r.pct(25) {
                o.faults.push(Fault::Cut(at as u32 + r.range(0, 6) as u32));
            }
            ops.push(o);
        }
    }
    ops
}

/// Numbers next to where counting ends.
const NUMBERS: [&str; 40] = [
    "0", "-0", "+0", "00", "1", "-1", "127", "128", "255", "256", "999", "1000", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295",
    "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616",
    "340282366920938463463374607431768211456", "1.", ".5", "0.1", "00.10", "1e0", "1e308", "1e309", "-1.8e308", "4.9e-324", "1e-400", "1e99999999999999999999", "0x1F",
    "1_000",
];
/// Contents of strings that something might take for more than a string.
const CONTENTS: [&str; 40] = [
    "a", " ", "%s%n", "${HOME}", "$(id)", "{}", "{0}", "..", "../../etc/passwd", "C:\\\\x", "file:///x", "<a>", "&amp;", "--", "/*", "*/", "' OR 1=1", "qismx", "(a+)+$", "[", "(?i)x",
    "^.*$", "\\\\d{1,99999}", "en-US", "*", "SELECT", "}", "\u{feff}", "\u{200b}", "\u{202e}x", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}", "\u{0}", "\t", "\u{7f}", "\u{85}",
    "\u{fffd}", "\u{10ffff}", "NaN", "null",
];
const NAMES: [&str; 24] = [
    "a", "true", "false", "undef", "select", "where", "default", "named", "all", "graph", "as", "in", "not", "count", "distinct", "_", "__", "1", "0x", "x1y2", "\u{e9}", "\u{4e2d}\u{6587}",
    "A", "nil",
];
const PREFIXED: [&str; 20] = [
    "rdf:type", "rdf:nil", "rdf:first", "rdfs:label", "xsd:integer", "xsd:string", "owl:sameAs", "foaf:name", "geo:lat", "a:bb", ":aa", "_:ab", "_:b0.1", "x:1a", "ex:a.b.c", "ex:a%20b", "ex:\\~x",
    "ex:aa:bb", "fn:not", "wdt:P31",
];
/// The IRIs, strings, numbers, variables and prefixed names of a text, roughly, with their sorts.
fn values(s: &str) -> Vec<(usize, usize, u8)> {
    let b = s.as_bytes();
    let name = |c: u8| c.is_ascii_alphanumeric() || b"_-.%".contains(&c) || c > 127;
    let run = |mut k: usize, f: &dyn Fn(u8) -> bool| {
        while k < b.len() && f(b[k]) {
            k += 1;
        }
        k
    };
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let (end, sort) = match b[i] {
            b'<' => {
                let e = run(i + 1, &|c| !b" <>\"{}|^`\\\n\r\t".contains(&c));
                if e < b.len() && b[e] == b'>' { (e + 1, b'<') } else { (i + 1, 0) }
            }
            q @ (b'"' | b'\'') => {
                let mut e = i + 1;
                while e < b.len() && b[e] != q {
                    e += if b[e] == b'\\' { 2 } else { 1 };
                }
                if e < b.len() { (e + 1, b'"') } else { (b.len(), 0) }
            }
            b'0'..=b'9' => (run(i, &|c| c.is_ascii_digit() || c == b'.' || c == b'e' || c == b'E'), b'0'),
            b'?' | b'$' => {
                let e = run(i + 1, &|c| name(c) && c != b'.' && c != b'-' && c != b'%');
                if e > i + 1 { (e, b'?') } else { (i + 1, 0) }
            }
            c if name(c) || c == b':' => {
                let e = run(i, &|c| name(c) || c == b':');
                (e, if b[i..e].contains(&b':') { b':' } else { 0 })
            }
            _ => (i + 1, 0),
        };
        if sort != 0 && s.is_char_boundary(i) && s.is_char_boundary(end) {
            v.push((i, end, sort));
        }
        i = end;
    }
    v
}
/// The text with each of its IRIs, names, strings and numbers replaced by ones that are out of
/// the ordinary; one of the tokens by every one of them.
pub fn other_values(r: &mut Rng, e: u8, s: &str) -> Vec<Op> {
    let t = values(s);
    if t.is_empty() {
        return vec![];
    }
    let chosen = r.idx(t.len());
    let mut ops = vec![];
    for (k, &(a, b, c)) in t.iter().enumerate() {
        let w = &s[a..b];
        let share = if k == chosen { 100 } else { 300 / t.len() as u64 };
        let mut add = |r: &mut Rng, v: String| {
            if r.pct(share.min(100)) {
                ops.push(Op::new(e, &format!("{}{v}{}", &s[..a], &s[b..])));
            }
        };
        match c {
            b'<' => {
                for v in gen::IRIS {
                    add(r, format!("<{v}>"));
                }
                for v in PREFIXED {
                    add(r, v.into());
                }
            }
            b'"' => {
                let q = &w[..1];
                for v in CONTENTS {
                    add(r, format!("{q}{v}{q}"));
                }
                for v in gen::LEXICAL {
                    let t = *r.pick(&gen::TYPES);
                    add(r, format!("{q}{v}{q}^^xsd:{t}"));
                }
            }
            b'0' => {
                for v in NUMBERS {
                    add(r, v.into());
                }
            }
            b'?' => {
                for v in NAMES {
                    add(r, format!("{}{v}", &w[..1]));
                }
            }
            _ => {
                for v in PREFIXED {
                    add(r, v.into());
                }
            }
        }
    }
    while ops.len() > 220 {
        let k = r.idx(ops.len());
        ops.swap_remove(k);
    }
    ops
}

/// The text grown to at least `n` bytes more at one place: a name, IRI, string or number goes on
/// and on, or white space and comments do.  Also where the growth ends.
pub fn inflate(r: &mut Rng, s: &str, n: usize) -> (String, usize) {
    let b = s.as_bytes();
    let mut at: Vec<usize> = vec![];
    let blanks = r.pct(45);
    for i in 1..b.len() {
        if blanks {
            if b[i].is_ascii_whitespace() {
                at.push(i);
            }
            continue;
        }
        if !b[i - 1].is_ascii_alphanumeric() || b[i] >= 0x80 {
            continue;
        }
        let mut k = i - 1;
        while k > 0 && b[k - 1].is_ascii_alphanumeric() {
            k -= 1;
        }
        if (k > 0 && b"?$<:'\"@/#_".contains(&b[k - 1])) || b[i - 1].is_ascii_digit() || r.pct(4) {
            at.push(i);
        }
    }
    if at.is_empty() {
        at.push(s.len());
    }
    let at = *r.pick(&at);
    let digit = at > 0 && b[at - 1].is_ascii_digit();
    let piece: String = if blanks || at == s.len() {
        match r.below(6) {
            0 => " ".into(),
            1 => "\n".into(),
            2 => "\r\n\t ".into(),
            3 => "#c\n".into(),
            4 => format!("#{}\n", "c".repeat(n)),
            _ => format!("#{}\r", "(<'\"{?\u{e9}".repeat(n / 8 + 1)),
        }
    } else if digit {
        (*r.pick(&["0", "7", "123"])).into()
    } else {
        (*r.pick(&["x", "ab", "Z9", "x1y2z3w4"])).into()
    };
    let grown = piece.repeat(n / piece.len() + 1);
    (format!("{}{grown}{}", &s[..at], &s[at..]), at + grown.len())
}

pub const KINDS: usize = STRETCH.len() + gen::FLAT.len() + gen::NEST.len();
/// The texts of one sweep, with the place where the swept thing ends.
pub fn texts(r: &mut Rng, which: usize, most: usize, pct: u64) -> Vec<(u8, String, usize)> {
    let mut out = vec![];
    let ns = STRETCH.len();
    let nf = gen::FLAT.len();
    if which < ns {
        let fl = r.below(FLAVOURS);
        let mut at: Vec<usize> = (0..=most).collect();
        if most > 100 {
            for k in 9..=12 {
                at.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, (1usize << k) + r.idx(1 << k)]);
            }
            if r.pct(30) {
                let k = r.range(13, 16);
                at.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
            }
        }
        // sizes the changed code knows
        for _ in 0..6 {
            at.extend(crate::dict::size(r, most as u64 / 2, 70_000, 60).map(|n| n as usize));
        }
        for n in at {
            if !r.pct(pct) {
                continue;
            }
            let (e, s, _, b) = stretch(which, n, fl);
            if s.len() < 200_000 {
                out.push((e, s, b));
            }
        }
    } else if which < ns + nf {
        let kind = gen::FLAT[which - ns].0;
        let v = r.below(2) as usize;
        let mut at: Vec<usize> = (0..=most).collect();
        if most > 100 {
            at.extend([511, 512, 513, 1023, 1024, 1025]);
        }
        for _ in 0..4 {
            at.extend(crate::dict::size(r, most as u64 / 2, 8_000, 60).map(|n| n as usize));
        }
        for n in at {
            if !r.pct(pct) {
                continue;
            }
            let (e, s) = gen::growing(kind, n, v);
            let end = s.trim_end_matches(|c: char| "]}) .'>".contains(c)).len();
            out.push((e, s, end));
        }
    } else {
        let kind = gen::NEST[which - ns - nf].0;
        for n in 1..=most.min(140) {
            if !r.pct(pct) {
                continue;
            }
            let (e, cut, s) = gen::nest(kind, n);
            out.push((e, s, cut.len()));
        }
    }
    out
}
/// One more or less of a nest than a depth the code or a machine word knows.
pub fn deep(r: &mut Rng) -> usize {
    if let Some(n) = crate::dict::size(r, 15, 400, 50) {
        return n as usize;
    }
    let n = *r.pick(&[16usize, 20, 24, 32, 48, 50, 64, 100, 128, 200, 255, 256]);
    n + r.idx(4)
}
