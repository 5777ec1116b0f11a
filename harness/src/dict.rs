//! Dictionary of the literals in the library's source. It only steers the
//! generators towards values the code might treat specially; no oracle uses it.

use std::{collections::BTreeSet, sync::OnceLock};

pub struct Dict {
    /// integer literals and simple expressions of two of them
    pub ints: Vec<u64>,
    /// their 16 bit neighbourhood
    pub words: Vec<u16>,
    pub dwords: Vec<u32>,
    pub floats: Vec<f32>,
    pub strings: Vec<String>,
}

enum Tok {
    Int(u64),
    Op(char),
    Other,
}

fn number(s: &[char], i: &mut usize) -> (Option<u64>, Option<f64>) {
    let radix = match (s[*i], s.get(*i + 1)) {
        ('0', Some('x')) => 16,
        ('0', Some('b')) => 2,
        ('0', Some('o')) => 8,
        _ => 10,
    };
    if radix != 10 {
        *i += 2;
    }
    let mut text = String::new();
    let mut float = false;
    while let Some(&c) = s.get(*i) {
        let next_digit = s.get(*i + 1).is_some_and(char::is_ascii_digit);
        if c.is_digit(radix) {
            text.push(c);
        } else if radix == 10 && c == '.' && next_digit && !float {
            float = true;
            text.push(c);
        } else if c != '_' {
            break;
        }
        *i += 1;
    }
    // exponent or type suffix
    if radix == 10 && matches!(s.get(*i), Some('e' | 'E')) {
        let mut j = *i + 1;
        let mut exp = String::from("e");
        while let Some(&c) = s.get(j).filter(|c| c.is_ascii_digit() || **c == '-') {
            exp.push(c);
            j += 1;
        }
        if exp.len() > 1 {
            text += &exp;
            float = true;
            *i = j;
        }
    }
    let suffix = *i;
    while s.get(*i).is_some_and(|c| c.is_alphanumeric() || *c == '_') {
        *i += 1;
    }
    float |= s.get(suffix) == Some(&'f');
    if float {
        (None, text.parse().ok())
    } else {
        (u64::from_str_radix(&text, radix).ok(), None)
    }
}

fn scan(src: &str, ints: &mut BTreeSet<u64>, floats: &mut BTreeSet<u64>, strings: &mut BTreeSet<String>) {
    let s: Vec<char> = src.chars().collect();
    let mut toks: Vec<Tok> = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        match c {
            '/' if s.get(i + 1) == Some(&'/') => {
                while i < s.len() && s[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let mut text = String::new();
                i += 1;
                while i < s.len() && s[i] != '"' {
                    if s[i] == '\\' {
                        i += 1;
                        match s.get(i) {
                            Some('n') => text.push('\n'),
                            Some('r') => text.push('\r'),
                            Some('t') => text.push('\t'),
                            Some('0') => text.push('\0'),
                            Some(&c) => text.push(c),
                            None => {}
                        }
                    } else {
                        text.push(s[i]);
                    }
                    i += 1;
                }
                i += 1;
                strings.insert(text);
                toks.push(Tok::Other);
            }
            '\'' if s.get(i + 2) == Some(&'\'') => {
                ints.insert(u64::from(u32::from(s[i + 1])));
                i += 3;
                toks.push(Tok::Other);
            }
            _ if c.is_ascii_digit() => {
                let (n, f) = number(&s, &mut i);
                if let Some(f) = f {
                    floats.insert(f.to_bits());
                }
                toks.push(n.map_or(Tok::Other, Tok::Int));
            }
            _ if c.is_alphabetic() || c == '_' => {
                while s.get(i).is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                    i += 1;
                }
                toks.push(Tok::Other);
            }
            _ => {
                i += 1;
                match c {
                    '<' if s.get(i) == Some(&'<') => {
                        i += 1;
                        toks.push(Tok::Op('<'));
                    }
                    '*' | '+' | '-' | '/' => toks.push(Tok::Op(c)),
                    _ if c.is_whitespace() => {}
                    _ => toks.push(Tok::Other),
                }
            }
        }
    }
    for t in &toks {
        if let Tok::Int(n) = t {
            ints.insert(*n);
        }
    }
    for w in toks.windows(3) {
        if let [Tok::Int(a), Tok::Op(o), Tok::Int(b)] = w {
            let v = match o {
                '<' => u32::try_from(*b).ok().filter(|b| *b < 64).map(|b| a << b),
                '*' => a.checked_mul(*b),
                '+' => a.checked_add(*b),
                '-' => a.checked_sub(*b),
                _ => a.checked_div(*b),
            };
            ints.extend(v);
        }
    }
}

/// The source without the unit tests at the end of the files.
fn sources() -> Vec<String> {
    let dir = std::env::var("UR20_SRC").unwrap_or_else(|_| "/repo/src".into());
    let mut files = vec![];
    let mut dirs = vec![std::path::PathBuf::from(dir)];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|x| x == "rs") {
                files.push(p);
            }
        }
    }
    files.sort();
    files
        .iter()
        .filter_map(|f| std::fs::read_to_string(f).ok())
        .map(|s| match s.find("#[cfg(test)]\nmod tests") {
            Some(n) => s[..n].to_string(),
            None => s,
        })
        .collect()
}

pub fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let (mut i, mut f, mut s) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for src in sources() {
            scan(&src, &mut i, &mut f, &mut s);
        }
        i.extend([0, 1]);
        let mut words = BTreeSet::new();
        let mut dwords = BTreeSet::new();
        for n in &i {
            for d in [0i64, 1, -1] {
                let Some(v) = n.checked_add_signed(d) else { continue };
                if let Ok(w) = u16::try_from(v) {
                    words.extend([w, w.wrapping_neg()]);
                    dwords.insert(u32::from(w) << 16);
                }
                if let Ok(w) = u32::try_from(v) {
                    dwords.insert(w);
                }
            }
        }
        let mut floats: Vec<f32> = f.iter().map(|b| f64::from_bits(*b) as f32).collect();
        floats.extend(i.iter().filter(|n| **n < 1 << 32).map(|n| *n as f32));
        let neg: Vec<f32> = floats.iter().map(|x| -x).collect();
        floats.extend(neg);
        Dict {
            ints: i.into_iter().collect(),
            words: words.into_iter().collect(),
            dwords: dwords.into_iter().collect(),
            floats,
            strings: s.into_iter().collect(),
        }
    })
}

/// Byte sequences out of the dictionary, picked by two pseudo random numbers.
pub fn bytes(a: usize, b: usize) -> Vec<u8> {
    let d = dict();
    let short: Vec<&String> = d.strings.iter().filter(|s| s.len() <= 12).collect();
    match a % 8 {
        0..3 => d.words[b % d.words.len()].to_le_bytes().to_vec(),
        3 => d.words[b % d.words.len()].to_be_bytes().to_vec(),
        4 | 5 => {
            let small: Vec<u8> = d.ints.iter().filter_map(|n| u8::try_from(*n).ok()).collect();
            vec![small[b % small.len()]]
        }
        6 => {
            let w = d.dwords[b % d.dwords.len()];
            let (h, l) = ((w >> 16) as u16, w as u16);
            [h.to_le_bytes(), l.to_le_bytes()].concat()
        }
        _ if short.is_empty() => vec![0],
        _ => short[b % short.len()].bytes().collect(),
    }
}
