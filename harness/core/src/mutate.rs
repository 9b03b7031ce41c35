//! Text mutations and byte soup.
use crate::rng::Rng;

const TOK: &[&str] = &[
    "{", "}", "(", ")", ",", ">", "@", "\"", "\\", "\n", "\r\n", "\r", " ", "\t", "//", "///", "/// d\n", "// c\n", "<<", "<<EOF", "<<EOF\n", "EOF", "\nEOF\n", "r#\"", "\"#", "r\"", "r#", "r##\"", "\"##", "#",
    "=", ".", "..", "a", "b", "key", "a.b", "a.b.c", "@tag", "@a/@b", "@t{", "@t(", "@t\"x\"", "@t@", "a>b", "a>", ">b", "\\u", "\\u{", "\\u{41}", "\\u0041", "\\ud800", "\\u{110000}", "\\u123", "\\x", "\\n", "\"\"", "\"a\"",
    "()", "{}", "é", "日", "😀", "\u{f0001}", "\u{10ffff}", "\u{ffff}", "\u{7ff}", "\u{a0}", "\u{85}", "\u{2028}", "\u{feff}", "\u{0}", "\u{b}", "\u{c}", "-", "_", "/", "/@", "/@x", "0", "1", "true", ":", ";", "'", "<", "<a", "<<a", "<<E,rust\n", ",,", "a 1", "a 1\n", "\na 2", "{a 1}", "(a b)", "@schema", "@ x\n",
];

pub fn boundary(r: &mut Rng, s: &str) -> usize {
    if s.is_empty() {
        return 0;
    }
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
pub fn soup(r: &mut Rng) -> String {
    let n = match r.below(10) {
        0 => r.range(30, 200),
        1..=3 => r.range(1, 4),
        _ => r.range(3, 25),
    };
    let mut s = String::new();
    for _ in 0..n {
        if r.pct(92) {
            s.push_str(r.pick(TOK));
        } else {
            let c = char::from_u32(r.below(0x3000) as u32).unwrap_or('x');
            s.push(c);
        }
        if r.pct(25) {
            s.push_str(r.pick(&[" ", "\n", " ", "\n  "]));
        }
    }
    s
}
pub fn mutate(r: &mut Rng, s: &str, other: &str) -> String {
    let mut s = s.to_string();
    let k = *r.pick(&[1usize, 1, 1, 1, 2, 3, 6]);
    for _ in 0..k {
        s = mutate1(r, &s, other);
    }
    s
}
pub fn mutate1(r: &mut Rng, s: &str, other: &str) -> String {
    let i = boundary(r, s);
    match r.below(10) {
        0 | 1 => format!("{}{}{}", &s[..i], r.pick(TOK), &s[i..]),
        2 => {
            // delete one char
            let mut t = s[i..].chars();
            t.next();
            format!("{}{}", &s[..i], t.as_str())
        }
        3 => {
            // replace one char
            let mut t = s[i..].chars();
            t.next();
            format!("{}{}{}", &s[..i], r.pick(TOK), t.as_str())
        }
        4 => s[..i].to_string(),
        5 => {
            let j = boundary(r, s);
            let (a, b) = (i.min(j), i.max(j));
            format!("{}{}", &s[..a], &s[b..])
        }
        6 => {
            let j = boundary(r, s);
            let (a, b) = (i.min(j), i.max(j));
            let b = if b - a > 400 { a } else { b };
            format!("{}{}{}", &s[..b], &s[a..b], &s[b..])
        }
        7 => {
            let j = boundary(r, other);
            format!("{}{}", &s[..i], &other[j..])
        }
        8 => {
            // remove or double one structural character
            let p: Vec<usize> = s.char_indices().filter(|(_, c)| "{}()\"@>,\\#\n".contains(*c)).map(|x| x.0).collect();
            if p.is_empty() {
                return s.to_string();
            }
            let i = *r.pick(&p);
            if r.pct(50) { format!("{}{}", &s[..i], &s[i + 1..]) } else { format!("{}{}", &s[..=i], &s[i..]) }
        }
        _ => {
            // swap two lines
            let mut l: Vec<&str> = s.split('\n').collect();
            let n = l.len();
            let (a, b) = (r.below(n), r.below(n));
            l.swap(a, b);
            l.join("\n")
        }
    }
}
