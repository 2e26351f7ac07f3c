//! Match rating approach.

const PLAIN: [(&str, char); 14] = [
    ("ÀÁÂÃÄÅ", 'A'),
    ("àáâãäå", 'a'),
    ("ÈÉÊË", 'E'),
    ("èéêë", 'e'),
    ("ÌÍÎÏ", 'I'),
    ("ìíîï", 'i'),
    ("ÒÓÔÕÖŐ", 'O'),
    ("òóôõöő", 'o'),
    ("ÙÚÛÜŰ", 'U'),
    ("ùúûüű", 'u'),
    ("ÝŶŸ", 'Y'),
    ("ýŷÿ", 'y'),
    ("ÑÇ", ' '),
    ("ñç", ' '),
];

fn plain(c: char) -> char {
    if (c as u32) < 128 {
        return c;
    }
    for (l, p) in PLAIN {
        if p != ' ' && l.contains(c) {
            return p;
        }
    }
    match c {
        'Ñ' => 'N',
        'ñ' => 'n',
        'Ç' => 'C',
        'ç' => 'c',
        c => c,
    }
}

fn vowel(c: char) -> bool {
    matches!(c, 'A' | 'E' | 'I' | 'O' | 'U' | 'a' | 'e' | 'i' | 'o' | 'u')
}

/// Nothing or a single character, spaces around aside: no name.
fn no_name(s: &str) -> bool {
    let t = s.trim();
    t.is_empty() || t.chars().count() == 1
}

fn code(s: &str) -> Vec<char> {
    if no_name(s) {
        return vec![];
    }
    // letters in upper case, without accents, spaces, - & ' . and ,
    let mut v: Vec<char> = vec![];
    for c in s.to_uppercase().chars() {
        if !matches!(c, '-' | '&' | '\'' | '.' | ',') && !c.is_whitespace() {
            v.push(plain(c));
        }
    }
    // vowels only at the start
    let mut w: Vec<char> = vec![];
    for (i, c) in v.into_iter().enumerate() {
        if i == 0 || !vowel(c) {
            w.push(c);
        }
    }
    // each pair of the same consonant is one, in one pass
    let mut x: Vec<char> = vec![];
    let w: Vec<char> = w.iter().flat_map(|c| c.to_uppercase()).collect();
    let mut i = 0;
    while i < w.len() {
        let c = w[i];
        x.push(c);
        i += 1;
        if c >= 'B' && c <= 'Z' && !vowel(c) && i < w.len() && w[i] == c {
            i += 1;
        }
    }
    // the first three and the last three
    if x.len() > 6 {
        x.drain(3..x.len() - 3);
    }
    x
}

pub fn encode(s: &str) -> String {
    code(s).into_iter().collect()
}

pub fn matches(a: &str, b: &str) -> bool {
    if no_name(a) || no_name(b) {
        return false;
    }
    if a == b {
        return true;
    }
    let (x, y) = (code(a), code(b));
    if x.is_empty() || y.is_empty() {
        return false;
    }
    let (n, m) = (x.len(), y.len());
    if n.max(m) - n.min(m) >= 3 {
        return false;
    }
    let need = match n + m {
        0..=4 => 5,
        5..=7 => 4,
        8..=11 => 3,
        _ => 2,
    };
    // characters at the same place from the left, or from the right, are struck out
    let k = n.min(m);
    let mut left_x = 0;
    let mut left_y = 0;
    for i in 0..n {
        let l = i < k && x[i] == y[i];
        let r = n - 1 - i < k && x[i] == y[m - 1 - (n - 1 - i)];
        if !l && !r {
            left_x += 1;
        }
    }
    for i in 0..m {
        let l = i < k && x[i] == y[i];
        let r = m - 1 - i < k && y[i] == x[n - 1 - (m - 1 - i)];
        if !l && !r {
            left_y += 1;
        }
    }
    // the rating is 6 minus what is left of the longer one; there are at most 6
    6 - left_x.max(left_y) >= need
}
