//! C02: module and category names, channel counts and categories agree.

use crate::{engine::*, ensure, tables::*};
use proptest::prelude::*;
use serde_json::json;
use ur20::{ModuleCategory, ModuleType};

fn norm(s: &str) -> String {
    s.to_ascii_uppercase().replace('-', "_")
}

/// Names with characters that only non-ASCII case folding would map to ASCII
/// are neither required nor forbidden.
fn undecided(s: &str) -> bool {
    !s.is_ascii() && s.chars().any(|c| !c.is_ascii() && c.to_uppercase().any(|u| u.is_ascii()))
}

fn check_module(s: &str) -> Result<bool, String> {
    if undecided(s) {
        return Ok(false);
    }
    let n = norm(s);
    let exp = rows().iter().find(|r| r.name == n);
    match (s.parse::<ModuleType>(), exp) {
        (Ok(t), Some(r)) if t == r.t => Ok(true),
        (Err(_), None) => Ok(false),
        (g, e) => Err(format!(
            "module name {s:?} gives {g:?}, expected {:?}",
            e.map(|r| &r.t)
        )),
    }
}

fn check_category(s: &str) -> Result<bool, String> {
    if undecided(s) {
        return Ok(false);
    }
    let n = s.to_ascii_uppercase();
    let exp = CATEGORIES.iter().find(|c| c.0 == n);
    match (s.parse::<ModuleCategory>(), exp) {
        (Ok(t), Some(r)) if t == r.1 => Ok(true),
        (Err(_), None) => Ok(false),
        (g, e) => Err(format!(
            "category name {s:?} gives {g:?}, expected {:?}",
            e.map(|r| &r.1)
        )),
    }
}

fn type_facts(i: u64) -> Result<bool, String> {
    let r = &rows()[i as usize];
    ensure!(
        r.t.channel_count() == r.channels,
        "{:?} has {} channels, expected {}",
        r.t,
        r.t.channel_count(),
        r.channels
    );
    let c = ModuleCategory::from(r.t.clone());
    ensure!(
        c == r.category,
        "{:?} has category {c:?}, expected {:?}",
        r.t,
        r.category
    );
    if let Some(id) = r.id {
        ensure!(
            ModuleType::try_from_u32(id).as_ref() == Ok(&r.t),
            "{:?} is not found by its id",
            r.t
        );
    }
    check_module(r.name)?;
    Ok(true)
}

/// All names, in both upper and lower case, with one character replaced,
/// inserted or removed at every position.
const ALPHABET: usize = 128;

fn near_name(i: u64) -> (String, bool) {
    let all: Vec<(&str, bool)> = rows()
        .iter()
        .map(|r| (r.name, false))
        .chain(CATEGORIES.iter().map(|c| (c.0, true)))
        .collect();
    let mut i = i as usize;
    let ch = (i % ALPHABET) as u8 as char;
    i /= ALPHABET;
    let op = i % 4;
    i /= 4;
    let pos = i % 28;
    i /= 28;
    let (name, cat) = all[i % all.len()];
    let mut b: Vec<char> = name.chars().collect();
    let pos = pos.min(b.len());
    match op {
        0 => b.insert(pos, ch),
        1 if pos < b.len() => b[pos] = ch,
        2 if pos < b.len() => {
            b.remove(pos);
        }
        3 => {
            // drop a whole tail, then append
            b.truncate(pos);
            b.push(ch);
        }
        _ => {}
    }
    (b.into_iter().collect(), cat)
}

fn spelled(name: &'static str) -> BoxedStrategy<String> {
    (any::<u32>(), any::<u32>())
        .prop_map(move |(case, dash)| {
            name.chars()
                .enumerate()
                .map(|(i, c)| {
                    let c = if c == '_' && dash >> (i % 32) & 1 == 1 { '-' } else { c };
                    if case >> (i % 32) & 1 == 1 {
                        c.to_ascii_lowercase()
                    } else {
                        c
                    }
                })
                .collect()
        })
        .boxed()
}

fn names() -> BoxedStrategy<String> {
    let n: Vec<&'static str> = rows().iter().map(|r| r.name).collect();
    let c: Vec<&'static str> = CATEGORIES.iter().map(|c| c.0).collect();
    let ok = proptest::sample::select(n.clone()).prop_flat_map(spelled);
    let cat = proptest::sample::select(c.clone()).prop_flat_map(spelled);
    prop_oneof![
        8 => ok.clone(),
        2 => cat.clone(),
        // edits
        3 => (prop_oneof![ok.clone(), cat], any::<proptest::sample::Index>(), any::<char>()).prop_map(|(s, ix, ch)| {
            let mut v: Vec<char> = s.chars().collect();
            let i = ix.index(v.len());
            v[i] = ch;
            v.into_iter().collect()
        }),
        2 => (ok.clone(), any::<proptest::sample::Index>(), any::<proptest::sample::Index>()).prop_map(|(s, a, b)| {
            let mut v: Vec<char> = s.chars().collect();
            let (a, b) = (a.index(v.len()), b.index(v.len()));
            v.swap(a, b);
            v.into_iter().collect()
        }),
        2 => (ok.clone(), any::<proptest::sample::Index>()).prop_map(|(s, a)| s[..a.index(s.len())].to_string()),
        2 => (ok.clone(), ok.clone()).prop_map(|(a, b)| format!("{a}{b}")),
        // recombined parts of names
        4 => proptest::collection::vec(proptest::sample::select(
                n.iter().flat_map(|s| s.split('_')).collect::<Vec<_>>()), 1..7).prop_map(|v| v.join("_")),
        // other separators, at all or at some places
        3 => (ok.clone(), proptest::sample::select(vec!["", " ", ".", "/", ":", "+", "--", "__", "-_", "\u{2013}", "\u{2010}", "\t"]), any::<u32>())
            .prop_map(|(s, sep, at)| {
                let mut n = 0;
                s.chars().map(|c| if c == '-' || c == '_' {
                    n += 1;
                    if at & 1 == 0 || at >> n & 1 == 1 { sep.to_string() } else { c.to_string() }
                } else { c.to_string() }).collect()
            }),
        // without, or with another, prefix; with decorations
        2 => (ok.clone(), 0usize..8, proptest::sample::select(vec!["", "UR", "UR67-", "UR30_", "UR2O-", "UR-20-", "UR_20_", "WI-UR20-", "UR20"]))
            .prop_map(|(s, n, pre)| format!("{pre}{}", &s[n.min(s.len())..])),
        1 => (ok.clone(), proptest::sample::select(vec![("(", ")"), ("\"", "\""), ("'", "'"), ("ModuleType::", ""), ("", "@1"), ("", ";"), ("", "\r\n"), ("\u{feff}", ""), ("", "\0\0")]))
            .prop_map(|(s, (a, b))| format!("{a}{s}{b}")),
        1 => (ok, proptest::sample::select(vec![" ", "\n", "\t", "\0", "_", "-", "\u{a0}"]), any::<bool>())
            .prop_map(|(s, w, front)| if front { format!("{w}{s}") } else { format!("{s}{w}") }),
        1 => "\\PC{0,30}",
    ]
    .boxed()
}

/// All texts of up to four of these characters.
const SHORT: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- xz";

fn short(i: u64) -> String {
    let n = SHORT.len() as u64;
    let (mut i, mut len, mut block) = (i, 0, 1);
    while i >= block {
        i -= block;
        block *= n;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let c = SHORT[(i % n) as usize] as char;
            i /= n;
            c
        })
        .collect()
}

/// The texts that occur in the library's source, in several spellings.
fn source_text(i: u64) -> String {
    let s = &crate::dict::dict().strings[i as usize / 16];
    let s = match i % 4 {
        0 => s.clone(),
        1 => s.to_ascii_lowercase(),
        2 => s.to_ascii_uppercase(),
        _ => s.chars().rev().collect(),
    };
    match i / 4 % 4 {
        0 => s,
        1 => s.replace('_', "-"),
        2 => s.replace('-', "_"),
        _ => format!("UR20-{s}"),
    }
}

pub fn subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(Sweep {
            name: "type-table",
            rule: "every module type: name, id, channel count and category against the published table; all non-trivial",
            size: |_| rows().len() as u64,
            test: type_facts,
            describe: |i| json!(rows()[i as usize].name),
        }),
        Box::new(Sweep {
            name: "near-names",
            rule: "every module and category name with one ASCII character inserted, replaced, removed at, or appended after truncation to, every position; non-trivial = the result is still an accepted name",
            size: |_| ((rows().len() + CATEGORIES.len()) * 28 * 4 * ALPHABET) as u64,
            test: |i| {
                let (s, _) = near_name(i);
                Ok(check_module(&s)? | check_category(&s)?)
            },
            describe: |i| json!(near_name(i).0),
        }),
        Box::new(Sweep {
            name: "short-texts",
            rule: "every text of up to four letters, digits and separators against both parsers; non-trivial = an accepted name",
            size: |_| (0..=4).map(|n| (SHORT.len() as u64).pow(n)).sum(),
            test: |i| {
                let s = short(i);
                Ok(check_module(&s)? | check_category(&s)?)
            },
            describe: |i| json!(short(i)),
        }),
        Box::new(Sweep {
            name: "source-texts",
            rule: "every string literal of the library's source in 16 spellings against both parsers; non-trivial = an accepted name",
            size: |_| crate::dict::dict().strings.len() as u64 * 16,
            test: |i| {
                let s = source_text(i);
                Ok(check_module(&s)? | check_category(&s)?)
            },
            describe: |i| json!(source_text(i)),
        }),
        Box::new(Gen {
            name: "spellings",
            rule: "random case and dash spellings of all names, edits, recombinations and arbitrary strings, against both parsers; non-trivial = an accepted module or category name",
            cases: (1_600_000, 30_000_000),
            strategy: names,
            test: |s: &String, st: &mut Stats| {
                let a = check_module(s)?;
                let b = check_category(s)?;
                st.nontrivial_if(a | b);
                st.label_if(a, "module name");
                st.label_if(b, "category name");
                st.label_if(!a && !b, "neither");
                Ok(())
            },
        }),
    ]
}
