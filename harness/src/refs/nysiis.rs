//! NYSIIS.
use super::soundex::letters;

fn vowel(c: char) -> bool {
    matches!(c, 'A' | 'E' | 'I' | 'O' | 'U')
}
fn starts(v: &[char], p: &str) -> bool {
    v.len() >= p.len() && p.chars().zip(v).all(|(a, b)| a == *b)
}
fn ends(v: &[char], p: &str) -> bool {
    v.len() >= p.len() && starts(&v[v.len() - p.len()..], p)
}
fn set(v: &mut Vec<char>, at: usize, s: &str) {
    for (i, c) in s.chars().enumerate() {
        v[at + i] = c;
    }
}

pub fn nysiis(s: &[char], strict: bool) -> String {
    let mut v = letters(s);
    if v.is_empty() {
        return String::new();
    }
    // the start
    for (p, r) in [("MAC", "MCC"), ("KN", "NN"), ("K", "C"), ("PH", "FF"), ("PF", "FF"), ("SCH", "SSS")] {
        if starts(&v, p) {
            set(&mut v, 0, r);
        }
    }
    // the end
    for (ps, r) in [(&["EE", "IE"][..], 'Y'), (&["DT", "RT", "RD", "NT", "ND"][..], 'D')] {
        if ps.iter().any(|p| ends(&v, p)) {
            v.truncate(v.len() - 2);
            v.push(r);
        }
    }
    // the other letters: each is replaced in place, which the next ones see
    let mut key = vec![v[0]];
    let n = v.len();
    for i in 1..n {
        let c = v[i];
        let prev = v[i - 1];
        let next = if i + 1 < n { v[i + 1] } else { ' ' };
        let next2 = if i + 2 < n { v[i + 2] } else { ' ' };
        if c == 'E' && next == 'V' {
            set(&mut v, i, "AF");
        } else if vowel(c) {
            v[i] = 'A';
        } else if c == 'Q' {
            v[i] = 'G';
        } else if c == 'Z' {
            v[i] = 'S';
        } else if c == 'M' {
            v[i] = 'N';
        } else if c == 'K' {
            if next == 'N' {
                set(&mut v, i, "NN");
            } else {
                v[i] = 'C';
            }
        } else if c == 'S' && next == 'C' && next2 == 'H' {
            set(&mut v, i, "SSS");
        } else if c == 'P' && next == 'H' {
            set(&mut v, i, "FF");
        } else if c == 'H' && !(vowel(prev) && vowel(next)) {
            v[i] = prev;
        } else if c == 'W' && vowel(prev) {
            v[i] = prev;
        }
        if v[i] != prev {
            key.push(v[i]);
        }
    }
    // the last letters of the key, not its first one
    if key.len() > 1 {
        if ends(&key, "S") {
            key.pop();
        }
        if key.len() > 2 && ends(&key, "AY") {
            key.remove(key.len() - 2);
        }
        if ends(&key, "A") {
            key.pop();
        }
    }
    if strict {
        key.truncate(6);
    }
    key.into_iter().collect()
}
