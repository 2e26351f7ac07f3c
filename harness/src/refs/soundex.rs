//! Soundex and refined Soundex, as their documentation describes them.

pub const DEFAULT: &str = "01230120022455012623010202";
pub const GENEALOGY: &str = "-123-12--22455-12623-1-2-2";
pub const REFINED: &str = "01360240043788015936020505";

/// Only letters count, in upper case.
pub fn letters(s: &[char]) -> Vec<char> {
    let mut v = Vec::new();
    for c in s {
        if c.is_alphabetic() {
            for u in c.to_uppercase() {
                v.push(u);
            }
        }
    }
    v
}

/// `table` has 26 symbols. A letter without a symbol in the table has no code.
fn digit(table: &[char], c: char) -> Option<char> {
    if c >= 'A' && c <= 'Z' {
        Some(table[c as usize - 'A' as usize])
    } else {
        None
    }
}

/// The first letter, then the digits of the other letters: silent letters (and H and W, when they
/// are special) do not count at all, neighbours with the same digit count once, vowels (digit 0)
/// only separate. Always four symbols.
pub fn soundex(table: &[char], special: bool, s: &[char]) -> String {
    let l = letters(s);
    if l.is_empty() {
        return String::new();
    }
    let mut out = String::new();
    out.push(l[0]);
    let mut n = 1;
    let mut last = digit(table, l[0]).unwrap_or('-');
    for c in &l[1..] {
        if n == 4 {
            break;
        }
        let d = digit(table, *c).unwrap_or('-');
        let ignored = d == '-' || (special && (*c == 'H' || *c == 'W'));
        if !ignored {
            if d != last && d != '0' {
                out.push(d);
                n += 1;
            }
            last = d;
        }
    }
    while n < 4 {
        out.push('0');
        n += 1;
    }
    out
}

/// The first letter, then the digits of all letters (the first one too), neighbours with the same
/// digit once.
pub fn refined(table: &[char], s: &[char]) -> String {
    let l = letters(s);
    let mut out = String::new();
    if let Some(c) = l.first() {
        out.push(*c);
    }
    let mut last = None;
    for c in l {
        let d = digit(table, c);
        if d.is_some() && d != last {
            out.push(d.unwrap());
        }
        last = d;
    }
    out
}
